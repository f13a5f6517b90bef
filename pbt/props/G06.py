"""Streaming writer, binary cells, unit queries."""
import datetime
import io
import os
import pathlib

import numpy

import gdspy
import gds
import libspec as L
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Random libraries are written whole, cell by cell with the streaming writer, with subsets and orders of cells "
    "given by object or name, and with raw binary cells taken from another file; streams are compared record by "
    "record, raw cells byte for byte. Non-trivial: at least two cells."
)
ASSUMPTIONS = ["binary cells are mixed into libraries of the same units, as documented"]


def norm(spec):
    return spec if L.fits(spec) else dict(spec, units=(1e-6, 1e-9))


def structs(data):
    """name -> bytes from BGNSTR to ENDSTR, in order."""
    out = []
    pos = 0
    start = None
    while pos < len(data):
        n = int.from_bytes(data[pos : pos + 2], "big")
        if n == 0:
            break
        t = data[pos + 2]
        if t == gds.BGNSTR:
            start = pos
        elif t == gds.STRNAME:
            name = data[pos + 4 : pos + n].rstrip(b"\0").decode("ascii")
        elif t == gds.ENDSTR:
            out.append((name, data[start : pos + n]))
        pos += n
    return out


class Target:
    """An output given as stream, path string or Path."""

    def __init__(self, kind):
        self.kind = kind
        self.path = os.path.join(os.environ["PBT_SCRATCH"], "out.gds")
        self.f = io.BytesIO()
        if os.path.exists(self.path):
            os.unlink(self.path)

    def out(self):
        return {"stream": self.f, "path": self.path, "Path": pathlib.Path(self.path)}[self.kind]

    def data(self):
        if self.kind == "stream":
            ensure(not self.f.closed, "the caller's stream was closed")
            return self.f.getvalue()
        with open(self.path, "rb") as f:
            return f.read()

    def source(self):
        if self.kind == "stream":
            return io.BytesIO(self.f.getvalue())
        return self.out()


kinds = st.sampled_from(["stream", "stream", "path", "Path"])


def check_writer(case, ctx):
    spec, kind, order, ts2, mixed = case
    spec = norm(spec)
    u, p = spec["units"]
    lib = L.make(spec)
    ts = L.when(spec)
    whole = L.write(lib, ts)
    t = Target(kind)
    w = gdspy.GdsWriter(t.out(), spec["name"], u, p, timestamp=ts)
    for i, c in enumerate(lib.cells.values()):
        if mixed[i % len(mixed)]:
            r = w.write_binary_cells([dict(structs(whole))[c.name]])
        else:
            r = w.write_cell(c, timestamp=ts)
        ensure(r is w, "chaining")
    w.close()
    ensure(t.data() == whole, "the streaming writer gives a different stream")
    # whole library again, to this kind of target
    t = Target(kind)
    lib.write_gds(t.out(), timestamp=ts)
    ensure(t.data() == whole, "target kind changes the stream")
    # units
    a, b = gdspy.get_gds_units(t.source())
    ensure(abs(a - u) <= 4e-16 * u and b == p, "units", a, b, u, p)
    # subsets
    cells = list(lib.cells.values())
    sub = []
    for k, byname in order:
        c = cells[k % len(cells)]
        if c.name not in [x if isinstance(x, str) else x.name for x in sub]:
            sub.append(c.name if byname else c)
    names = [x if isinstance(x, str) else x.name for x in sub]
    if sub:
        part = L.write(lib, ts, cells=sub)
        m = dict(structs(whole))
        ensure(structs(part) == [(n, m[n]) for n in names], "cells written", [n for n, _ in structs(part)], names)
        gds.parse(part)
        # the rest of the cells as binary data
        rest = [m[n] for n in m if n not in names]
        both = L.write(lib, ts, cells=sub, binary_cells=(x for x in rest))
        ensure(structs(both) == [(n, m[n]) for n in names] + [(n, m[n]) for n in m if n not in names], "binary cells")
        gds.parse(both)
    # iterating over the library gives its cells
    ensure(list(lib) == cells, "iteration")
    ctx.nt(len(cells) >= 2)


def check_binary(case, ctx):
    spec, kind, pad, other = case
    spec = norm(spec)
    lib = L.make(spec)
    ts = L.when(spec)
    data = L.write(lib, ts) + b"\0" * pad
    t = Target(kind)
    if kind == "stream":
        t.f.write(data)
    else:
        with open(t.path, "wb") as f:
            f.write(data)
    src = t.source()
    bc = gdspy.get_binary_cells(src)
    ensure(kind != "stream" or not src.closed, "the caller's stream was closed")
    exp = structs(data)
    ensure(list(bc.items()) == exp, "binary cells differ from the structures of the file", list(bc), [n for n, _ in exp])
    a, b = gdspy.get_gds_units(t.source())
    u, p = spec["units"]
    ensure(abs(a - u) <= 4e-16 * u and b == p, "units", a, b, u, p)
    # a new library made of them, read back, equals the old one
    new = gdspy.GdsLibrary(spec["name"], unit=u, precision=p)
    out = L.write(new, ts, binary_cells=bc.values())
    ensure(out == data[: len(data) - pad], "binary copy differs")
    ctx.nt(len(exp) >= 2)
    ctx.label("padded" if pad else "unpadded")


SUBS = [
    Sub(
        "writer",
        st.tuples(L.lib, kinds, st.lists(st.tuples(st.integers(0, 3), st.booleans()), max_size=4), st.just(0), st.lists(st.booleans(), min_size=1, max_size=4)),
        check_writer, 2000,
    ),
    Sub("binary", st.tuples(L.lib, kinds, st.sampled_from([0, 0, 1, 2, 3, 4, 100, 2047]), st.just(0)), check_binary, 2000),
]
