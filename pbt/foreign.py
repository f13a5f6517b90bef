"""Strategy for GDSII streams that gdspy did not write, and the expectation."""
import math
from fractions import Fraction

import gen
import libspec as L
from hypothesis import strategies as st

i4 = st.one_of(
    st.integers(-50, 50), st.integers(-5000, 5000), st.integers(-(2 ** 31), 2 ** 31 - 1)
)
xy1 = st.tuples(i4, i4)
layer = st.one_of(st.integers(0, 9), st.integers(0, 32767))
ptext = st.one_of(gen.ascii_text, gen.ascii_text, st.just(""))
props = st.one_of(
    st.just([]), st.just([]),
    st.dictionaries(st.integers(1, 127), ptext, max_size=3).map(lambda d: list(d.items())),
)
opt = lambda s: st.one_of(st.none(), s)
common = dict(elflags=opt(st.integers(0, 3)), plex=opt(st.integers(0, 100)), props=props)
angles = st.one_of(
    st.sampled_from([0.0, 90.0, 180.0, 270.0, 45.0]), st.integers(0, 3600).map(lambda k: k / 10.0)
)
mags = st.one_of(st.sampled_from([1.0, 2.0, 0.5]), st.integers(1, 9999).map(lambda k: k / 1000.0))


def flat(pts):
    return [v for p in pts for v in p]


def close(pts):
    return flat(pts + pts[:1])


boundary = st.fixed_dictionaries(
    dict(
        common, kind=st.just("BOUNDARY"), layer=layer, type=layer,
        xy=st.lists(xy1, min_size=3, max_size=9).map(close), chunk=st.sampled_from([8191, 2, 3, 1]),
    )
)
box = st.fixed_dictionaries(
    dict(
        common, kind=st.just("BOX"), layer=layer, type=layer,
        xy=st.tuples(xy1, xy1).map(lambda t: close([t[0], (t[1][0], t[0][1]), t[1], (t[0][0], t[1][1])])),
    )
)
node = st.fixed_dictionaries(
    dict(common, kind=st.just("NODE"), layer=layer, type=layer, xy=st.lists(xy1, min_size=1, max_size=4).map(flat))
)
path = st.fixed_dictionaries(
    dict(
        common, kind=st.just("PATH"), layer=layer, type=layer,
        pathtype=st.sampled_from([None, 0, 1, 2, 4, 4]), width=opt(st.one_of(st.integers(-900, 900), st.integers(-(2 ** 31) + 1, 2 ** 31 - 1))),
        bgnextn=opt(st.integers(-900, 900)), endextn=opt(st.integers(-900, 900)),
        xy=st.lists(xy1, min_size=2, max_size=7).map(flat), chunk=st.sampled_from([8191, 2, 3, 1]),
    )
).map(lambda d: d if d["pathtype"] == 4 else dict(d, bgnextn=None, endextn=None))
strans = dict(strans=opt(st.sampled_from([0, 0x8000, 0, 0x8000, 0x8006, 2])), mag=opt(mags), angle=opt(angles))
sname = st.one_of(st.integers(0, 3), st.integers(0, 3), st.sampled_from(["MISSING", "GONE"]))
sref = st.fixed_dictionaries(dict(common, **strans, kind=st.just("SREF"), sname=sname, xy=xy1.map(list)))
text = st.fixed_dictionaries(
    dict(
        common, **strans, kind=st.just("TEXT"), layer=layer, type=layer, presentation=opt(st.integers(0, 0x3F)),
        pathtype=st.sampled_from([None, None, 0, 1, 2]), width=opt(st.integers(-900, 900)), xy=xy1.map(list), string=ptext,
    )
)


@st.composite
def aref(draw):
    d = draw(st.fixed_dictionaries(dict(common, **strans, kind=st.just("AREF"), sname=sname)))
    nc, nr = draw(st.integers(1, 40)), draw(st.integers(1, 40))
    sx, sy = draw(st.integers(-900, 900)), draw(st.integers(-900, 900))
    ox, oy = draw(st.integers(-90000, 90000)), draw(st.integers(-90000, 90000))
    a = 0.0
    f = 1
    if d["strans"] is not None:
        a = math.radians(d["angle"] or 0.0)
        f = -1 if d["strans"] & 0x8000 else 1
    c, s = math.cos(a), math.sin(a)
    w, h = nc * sx, nr * sy * f
    d.update(
        colrow=(nc, nr), spacing=(sx, sy),
        xy=[ox, oy, ox + round(w * c), oy + round(w * s), ox - round(h * s), oy + round(h * c)],
    )
    return d


def clean(d):
    if d.get("strans", 0) is None:
        d = dict(d, mag=None, angle=None)
    return d


element = st.one_of(boundary, boundary, path, path, text, sref, aref(), box, node).map(clean)

HEADS = ["libdirsize", "srfname", "libsecur"]
HEADS2 = ["reflibs", "fonts", "attrtable", "generations", "format", "mask"]

stream = st.fixed_dictionaries(
    {
        "name": gen.cell_name,
        "version": st.sampled_from([600, 3, 5, 7]),
        "units": st.sampled_from([(1e-3, 1e-9), (1e-3, 1e-9), (1e-4, 1e-10), (5e-3, 5e-9), (1.0, 1e-9), (0.001, 2.54e-8), (1 / 3.0, 1e-6)]),
        "names": st.lists(gen.cell_name.filter(lambda n: n not in ("MISSING", "GONE")), min_size=4, max_size=4, unique=True),
        "cells": st.lists(st.lists(element, max_size=5), max_size=4),
        "heads": st.lists(st.sampled_from(HEADS + HEADS2), max_size=3, unique=True),
        "strclass": st.booleans(),
        "pad": st.sampled_from([0, 0, 1, 2, 7, 100, 2048]),
    }
)


def resolve(spec, t):
    """Cells may be referenced before they are defined; cycles are avoided by
    the caller using only what it needs of the result."""
    return spec["names"][t] if isinstance(t, int) else t


def encode(spec):
    import gds

    h = {
        "libdirsize": lambda: gds.struct.pack(">HHh", 6, 0x3902, 1),
        "srfname": lambda: gds.struct.pack(">HH", 10, 0x3A06) + b"rules\0",
        "libsecur": lambda: gds.struct.pack(">HHhhh", 10, 0x3B02, 1, 2, 3),
        "reflibs": lambda: gds.struct.pack(">HH", 94, 0x1F06) + b"one.db".ljust(45, b"\0")[:44] + b"x" + b"two.db".ljust(45, b"\0"),
        "fonts": lambda: gds.struct.pack(">HH", 4 + 176, 0x2006) + b"calma.tx".ljust(176, b"\0"),
        "attrtable": lambda: gds.struct.pack(">HH", 12, 0x2306) + b"attr.ta\0",
        "generations": lambda: gds.struct.pack(">HHh", 6, 0x2202, 3),
        "format": lambda: gds.struct.pack(">HHh", 6, 0x3602, 0),
        "mask": lambda: gds.struct.pack(">HHh", 6, 0x3602, 1) + gds.struct.pack(">HH", 12, 0x3706) + b"0 2-5 :7" + gds.struct.pack(">HH", 4, 0x3800),
    }
    head = b"".join(h[k]() for k in HEADS if k in spec["heads"])
    head2 = b"".join(h[k]() for k in HEADS2 if k in spec["heads"] and not (k == "format" and "mask" in spec["heads"]))
    cells = []
    for i, els in enumerate(spec["cells"]):
        cells.append(
            {"name": spec["names"][i], "elements": [dict(e, sname=resolve(spec, e["sname"])) if "sname" in e else e for e in els]}
        )
    return gds.stream(
        dict(name=spec["name"], version=spec["version"], units=spec["units"], cells=cells, head=head, head2=head2, pad=spec["pad"])
    )
