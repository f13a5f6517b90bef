"""Written streams, seen by an independent strict parser."""
import io
import datetime
from fractions import Fraction

import numpy

import gdspy
import gds
import gen
import libspec as L
from build import set_props
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Random libraries (polygons, polygon sets, GDSII paths of both classes, paths with several parallel elements, "
    "polygonal paths, labels, references, arrays, properties) are written with a random timestamp and parsed by an "
    "independent strict GDSII parser; the parsed elements are compared with the generating specification. "
    "Non-trivial: at least two kinds of element or one with a transformation or properties."
)
ASSUMPTIONS = [
    "coordinates fit the 4-byte integers; text is printable ASCII, names non-empty",
    "ties of the rounding to the grid may go either way",
]

ANCHOR = {"nw": 0, "n": 1, "ne": 2, "w": 4, "o": 5, "e": 6, "sw": 8, "s": 9, "se": 10}


def chk(ints, vals, mult, what):
    i = numpy.asarray(ints, dtype=float).reshape(-1)
    v = numpy.asarray(vals, dtype=float).reshape(-1) * mult
    ensure(i.shape == v.shape, what, "count", len(i), len(v), ints, vals)
    d = numpy.abs(i - v)
    tol = 0.5 + 1e-9 * max(1.0, float(numpy.abs(v).max(initial=1))) * 1e-2
    ensure(float(d.max(initial=0)) <= tol, what, "rounded to", ints, "from", (v.tolist()))


def real(value, expected, what):
    """The 8-byte real is the expected double up to one unit in the last place."""
    e = Fraction(expected)
    ensure(abs(value - e) <= abs(e) * Fraction(1, 2 ** 51), what, float(value), expected)


def strans(el, ro, mg, xr, what):
    if el["strans"] is None:
        ensure(not xr and (ro is None or ro == 0) and (mg is None or mg == 1), what, "transformation missing", ro, mg, xr)
        return
    ensure(el["strans"] == (0x8000 if xr else 0), what, "strans", hex(el["strans"]), xr)
    if el["mag"] is None:
        ensure(mg is None or mg == 1, what, "magnification missing", mg)
    else:
        real(el["mag"], 1 if mg is None else mg, what + " magnification")
    if el["angle"] is None:
        ensure(ro is None or ro == 0, what, "angle missing", ro)
    else:
        real(el["angle"], 0 if ro is None else ro, what + " angle")


def propeq(el, pr, what):
    ensure(len(el["props"]) == len(dict(el["props"])), what, "repeated attributes", el["props"])
    ensure(dict(el["props"]) == L.norm_props(pr), what, "properties", el["props"], pr)


def expected(spec, extra, side):
    """Expected elements of each cell, in file order."""
    out = []
    u, p = spec["units"]
    mult = u / p
    n = len(spec["cells"])
    for i, (polys, paths, labels, refs) in enumerate(spec["cells"]):
        ex = []

        def boundary(pts, ly, dt, pr):
            def f(el):
                ensure(el["kind"] == "BOUNDARY", "element", el["kind"])
                ensure(el["layer"] == ly and el["type"] == dt, "boundary layer/datatype", el, ly, dt)
                chk(el["xy"][:-2], pts, mult, "boundary")
                propeq(el, pr, "boundary")

            return f

        def path(pts, w, en, ly, dt, wt, pr):
            def f(el):
                ensure(el["kind"] == "PATH", "element", el["kind"])
                ensure(el["layer"] == ly and el["type"] == dt, "path layer/datatype", el, ly, dt)
                chk(el["xy"], pts, mult, "path")
                chk([abs(el["width"])], [w], mult, "path width")
                if el["width"] != 0:
                    ensure((el["width"] > 0) == wt, "absolute width flag", el["width"], wt)
                if isinstance(en, tuple):
                    ensure(el["pathtype"] == 4, "pathtype", el["pathtype"], en)
                    chk([el["bgnextn"], el["endextn"]], en, mult, "path extensions")
                else:
                    ensure(el["pathtype"] == {"flush": 0, "round": 1, "extended": 2}[en], "pathtype", el["pathtype"], en)
                propeq(el, pr, "path")

            return f

        def text(t, pos, an, ro, mg, xr, ly, tt, pr):
            def f(el):
                ensure(el["kind"] == "TEXT", "element", el["kind"])
                ensure(el["layer"] == ly and el["type"] == tt, "text layer/texttype", el, ly, tt)
                ensure(el["presentation"] == ANCHOR[an], "presentation", el["presentation"], an)
                chk(el["xy"], pos, mult, "text position")
                ensure(el["string"] == t, "text", repr(el["string"]), repr(t))
                strans(el, ro, mg, xr, "text")
                propeq(el, pr, "text")

            return f

        def ref(s, name):
            def f(el):
                ensure(el["sname"] == name, "reference name", el["sname"], name)
                if s[0] == "ref":
                    _, _, org, ro, mg, xr, pr = s
                    ensure(el["kind"] == "SREF", "element", el["kind"])
                    chk(el["xy"], org, mult, "reference origin")
                else:
                    _, _, nc, nr, sp, org, ro, mg, xr, pr = s
                    ensure(el["kind"] == "AREF", "element", el["kind"])
                    ensure(el["colrow"] == (nc, nr), "array size", el["colrow"], nc, nr)
                    a = numpy.radians(0 if ro is None else ro)
                    m = -1 if xr else 1
                    col = numpy.array([numpy.cos(a), numpy.sin(a)]) * nc * sp[0]
                    row = numpy.array([-numpy.sin(a), numpy.cos(a)]) * nr * sp[1] * m
                    pts = [org, numpy.array(org) + col, numpy.array(org) + row]
                    chk(el["xy"], pts, mult, "array corners")
                strans(el, ro, mg, xr, "reference")
                propeq(el, pr, "reference")

            return f

        for kind, ptss, ly, dt, pr in polys:
            for pts in ptss:
                ex.append(boundary(pts, ly, dt, pr))
        for kind, pts, w, en, ly, dt, wt, pr in paths:
            ex.append(path(pts, w, en, ly, dt, wt, pr))
        if i == n - 1:
            for p0, v, arms, wt, pr in extra:
                d = numpy.array(v, dtype=float)
                d /= numpy.hypot(*d)
                # positive offsets: left of flexible paths, right of robust paths
                nv = numpy.array([-d[1], d[0]])
                for w, off, en, ly, dt in arms:
                    a = numpy.array(p0) + nv * off * side
                    ex.append(path([a, a + numpy.array(v)], w, en, ly, dt, wt, pr))
        for s in labels:
            ex.append(text(*s))
        for s in refs:
            ex.append(ref(s, L.target_name(spec, i, s[1])))
        out.append(ex)
    return out


def check(case, ctx):
    spec, extra, robust = case
    if not L.fits(spec):
        spec = dict(spec, units=(1e-6, 1e-9))
    u, p = spec["units"]
    lib = L.make(spec)
    last = lib.cells[spec["names"][len(spec["cells"]) - 1]]
    for p0, v, arms, wt, pr in extra:
        ws, offs, ens, lys, dts = (list(x) for x in zip(*arms))
        kw = dict(ends=ens, layer=lys, datatype=dts, gdsii_path=True, width_transform=wt)
        q = (p0[0] + v[0], p0[1] + v[1])
        if robust:
            e = gdspy.RobustPath(p0, ws, offs, **kw).segment(q)
        else:
            e = gdspy.FlexPath([p0, q], ws, offs, **kw)
        last.add(set_props(e, pr))
    data = L.write(lib, L.when(spec))
    out = gds.parse(data)
    ensure(out["version"] == 600, "version", out["version"])
    ensure(out["name"] == spec["name"], "library name", out["name"])
    ensure(out["stamp"] == list(spec["stamp"]) * 2, "library timestamp", out["stamp"], spec["stamp"])
    real(out["units"][0], p / u, "database unit in user units")
    real(out["units"][1], p, "database unit in meters")
    ensure([c["name"] for c in out["cells"]] == spec["names"][: len(spec["cells"])], "cells", [c["name"] for c in out["cells"]])
    for c, ex in zip(out["cells"], expected(spec, extra, -1 if robust else 1)):
        ensure(c["stamp"] == list(spec["stamp"]) * 2, "cell timestamp", c["stamp"], spec["stamp"])
        ensure(len(c["elements"]) == len(ex), "number of elements", len(c["elements"]), len(ex))
        for el, f in zip(c["elements"], ex):
            f(el)
    kinds = set()
    rich = False
    for c in spec["cells"]:
        for g, n in ((c[0], 0), (c[1], 0), (c[2], "label"), (c[3], 0)):
            for s in g:
                kinds.add(n or s[0])
                rich |= bool(s[-1])
    if extra:
        kinds.add("parallel")
    ctx.label(*sorted(kinds))
    ctx.nt(len(kinds) >= 2 or rich)


anarm = st.tuples(
    st.integers(1, 5), st.one_of(st.integers(-9, 9), gen.grid(-9000, 9000)),
    st.sampled_from(["flush", "extended", "round", (0.5, 0.25), (1, -0.125)]), gen.layer_any, gen.layer_any,
)
multi = st.tuples(
    st.tuples(gen.grid(), gen.grid()),
    st.tuples(st.integers(-9, 9), st.integers(-9, 9)).map(lambda v: v if v != (0, 0) else (3, 1)),
    st.lists(anarm, min_size=1, max_size=3), st.booleans(), gen.props,
)


def check_polygonal(case, ctx):
    """Elements that are not path elements are written as the polygons they show."""
    spec, kind = case
    pts, ws, offs, lys, dts, pr, (u, p) = spec
    n = len(ws)
    kw = dict(layer=lys[:n], datatype=dts[:n])
    if kind == "flex":
        e = gdspy.FlexPath(pts, ws, offs[:n], **kw)
    else:
        e = gdspy.RobustPath(pts[0], ws, offs[:n], **kw)
        for q in pts[1:]:
            e.segment(q, [w * 1.5 for w in ws])
    set_props(e, pr)
    shown = e.get_polygons()
    spec_of = {}
    for k, v in e.get_polygons(True).items():
        for q in v:
            spec_of[q.tobytes()] = k
    lib = gdspy.GdsLibrary("L", unit=u, precision=p)
    lib.new_cell("A").add(e)
    out = gds.parse(L.write(lib, datetime.datetime(2020, 1, 2)))
    els = out["cells"][0]["elements"]
    ensure(len(els) == len(shown), "number of boundaries", len(els), len(shown))
    for el, q in zip(els, shown):
        ensure(el["kind"] == "BOUNDARY")
        chk(el["xy"][:-2], q, u / p, "boundary of a path")
        propeq(el, pr, "boundary of a path")
    have = sorted((tuple(el["xy"][:4]), el["layer"], el["type"]) for el in els)
    ctx.nt(n > 1)
    lt = sorted((el["layer"], el["type"]) for el in els)
    ensure(lt == sorted(k for k, v in e.get_polygons(True).items() for _ in v), "layers", lt)


polygonal = st.tuples(
    st.tuples(
        gen.polyline(st.integers(-30, 30), 2, 5),
        st.lists(st.integers(1, 4), min_size=1, max_size=3),
        st.lists(st.integers(-6, 6), min_size=3, max_size=3),
        st.lists(gen.layer_any, min_size=3, max_size=3),
        st.lists(gen.layer_any, min_size=3, max_size=3),
        gen.props,
        st.sampled_from(L.UNITS),
    ),
    st.sampled_from(["flex", "flex", "robust"]),
)


def check_now(case, ctx):
    """Without a timestamp the current time is used, consistently."""
    u, p = case
    lib = gdspy.GdsLibrary("L", unit=u, precision=p)
    lib.new_cell("A").add(gdspy.Rectangle((0, 0), (1, 1)))
    t0 = datetime.datetime.today().replace(microsecond=0)
    f = io.BytesIO()
    lib.write_gds(f)
    t1 = datetime.datetime.today()
    out = gds.parse(f.getvalue())
    for s in (out["stamp"], out["cells"][0]["stamp"]):
        for k in (0, 6):
            ensure(t0 <= datetime.datetime(*s[k : k + 6]) <= t1, "timestamp", s)
    ctx.nt()


SUBS = [
    Sub("stream", st.tuples(L.lib, st.lists(multi, max_size=2), st.booleans()), check, 5000),
    Sub("polygonal", polygonal, check_polygonal, 1500),
    Sub("now", st.sampled_from(L.UNITS), check_now, 32, 100),
]
