"""Point-in-polygon queries."""
import gdspy
import hier
import numpy
import oracle
import regions as R
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Random polygons and points near and inside them, queried one by one and in groups of different sizes and container types. "
    "Non-trivial: some judged points are inside and some outside."
)
ASSUMPTIONS = [
    "points within two precision steps of an edge, and points that a self-intersecting polygon winds around an even, non-zero number "
    "of times are not judged (groups that depend on them neither)",
]
coord = st.one_of(st.integers(-13, 13), st.integers(-26, 26).map(lambda k: k / 2), st.integers(-13000, 13000).map(lambda k: k / 1000 + 0.0003), st.sampled_from([1e5, -1e5]))
pts = st.lists(st.tuples(coord, coord), min_size=1, max_size=24)
groups = st.one_of(st.lists(st.lists(st.tuples(coord, coord), min_size=1, max_size=5), min_size=1, max_size=8), st.lists(st.lists(st.tuples(coord, coord), min_size=1, max_size=3), min_size=9, max_size=40))


def truth(polys, points, prec):
    """Array of 1 (inside), 0 (outside), -1 (not judged)."""
    p = numpy.array(points, dtype=float)
    sure = numpy.zeros(len(p), bool)
    out = numpy.ones(len(p), bool)
    for q in polys:
        w = oracle.winding(q, p)
        far = oracle.edge_distance([q], p) > 2 * prec
        sure |= (w % 2 == 1) & far
        out &= (w == 0) & far
    return numpy.where(sure, 1, numpy.where(out, 0, -1))


def operand(polys, form):
    if form == "pset":
        return gdspy.PolygonSet(polys)
    if form == "mixed":
        return [gdspy.PolygonSet(polys[:1])] + [numpy.array(p) for p in polys[1:]]
    if form == "ref":
        c = gdspy.Cell("C")
        c.add(gdspy.PolygonSet(polys))
        return [gdspy.CellReference(c)]
    return polys


def wrap(points, kind):
    if kind == "array":
        return numpy.array(points, dtype=float)
    if kind == "tuple":
        return tuple(tuple(p) for p in points)
    return [list(p) for p in points]


def check_single(case, ctx):
    polys, points, prec, form, kind, sc = case
    kw = {} if prec == 1e-3 else {"precision": prec}
    points = points + [((a[0] + b[0]) / 2, (a[1] + b[1]) / 2) for p in polys for a, b in zip(p, p[2:])]
    out = gdspy.inside(wrap(points, kind), operand(polys, form), sc, **kw)
    ensure(isinstance(out, tuple) and len(out) == len(points), "answers", len(out), len(points))
    t = truth(polys, points, prec)
    for o, e, q in zip(out, t, points):
        ensure(isinstance(o, bool), "type", o)
        if e >= 0:
            ensure(o == (e == 1), "point", q, "gives", o)
    ctx.nt((t == 1).any() and (t == 0).any())
    ctx.label(form, kind)


def check_groups(case, ctx):
    polys, gs, prec, form, kind, sc, outer = case
    kw = {} if prec == 1e-3 else {"precision": prec}
    pts_in = [wrap(g, kind) for g in gs]
    if outer == "tuple":
        pts_in = tuple(pts_in)
    if sc == "default":
        out = gdspy.inside(pts_in, operand(polys, form), **kw)
    else:
        out = gdspy.inside(pts_in, operand(polys, form), short_circuit=sc, **kw)
    ensure(isinstance(out, tuple) and len(out) == len(gs), "answers", len(out), len(gs))
    seen = set()
    for o, g in zip(out, gs):
        t = truth(polys, g, prec)
        if sc == "all":
            e = 0 if (t == 0).any() else (-1 if (t < 0).any() else 1)
        else:
            e = 1 if (t == 1).any() else (-1 if (t < 0).any() else 0)
        if e >= 0:
            ensure(o == (e == 1), "group", g, sc, "gives", o, "points", t.tolist())
            seen.add(e)
    ctx.nt(len(seen) == 2)
    ctx.label(form, sc, "sizes differ" if len({len(g) for g in gs}) > 1 else "same size")


polys = st.lists(st.one_of(R.simple, R.simple, R.ring(), R.cellsq, R.free), min_size=1, max_size=4)
form = st.sampled_from(["list", "pset", "mixed", "ref"])
kind = st.sampled_from(["list", "array", "tuple"])
SUBS = [
    Sub("points", st.tuples(polys, pts, R.precision, form, kind, st.sampled_from(["any", "all"])), check_single, 4000),
    Sub("groups", st.tuples(polys, groups, R.precision, form, kind, st.sampled_from(["any", "all", "default"]), st.sampled_from(["list", "tuple"])), check_groups, 6000),
]
