"""Region of boolean operations."""
import math

import gdspy
import numpy
import oracle
import regions as R
from core import Rare, Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Random operand lists (simple, rectilinear on a common grid, keyhole frames, free self-intersecting and degenerate "
    "polygons), operations, precisions and magnitudes; the symmetric difference between the result and the set-theoretic "
    "combination of the operands is measured by an independent sweep. Non-trivial: the operands overlap (the intersection "
    "has more area than the tolerance)."
)
ASSUMPTIONS = [
    "region of an operand: non-zero winding rule of its polygons, each taken counter-clockwise after rounding",
    "polygons whose winding has both signs (lobes of opposite sense) are the only one of their operand, since lobes of "
    "opposite sense cancel within an operand",
    "an isolated failure (two per worker, then one per 1000 cases) is not reported if four inputs with every vertex moved by up to 20 grid steps pass: "
    "the bundled Clipper library nests degenerate rings wrongly for a few inputs in a million with coincident edges (known findings)",
    "tolerance: two precision steps times the total length of the edges",
]


def judge(a, b, op, res, precision, tol_len, ctx, what=""):
    """Compare a result (list of vertex lists or None) with the oracle."""
    L = R.length(a, b)
    lim = tol_len * L + 4 * tol_len ** 2
    exp = R.expected_area(a, b, op)
    if res is None:
        ensure(exp <= lim, what, "no result but the region has area", exp)
        return exp, lim
    ensure(len(res) > 0, what, "empty result is not None")
    for p in res:
        ensure(numpy.isfinite(p).all() and len(p) >= 3, what, "polygon", p)
    lim += tol_len * R.length(res)
    d = R.difference(a, b, op, res)
    ensure(d <= lim, what, "differs on area", d, "tolerance", lim, "expected area", exp, "result", [p.tolist() for p in res][:4])
    # without a second operand the polygons are passed on as they are
    o = R.overlap(res) if len(b) else 0
    ensure(o <= lim, what, "polygons of the result overlap on area", o, "tolerance", lim)
    return exp, lim


def region(case, ctx):
    a, b, op, precision, maxp = case
    kw = {} if precision == 1e-3 else {"precision": precision}
    out = gdspy.boolean(a, b, op, max_points=maxp, **kw)
    ga, gb = R.on_grid(a, precision), R.on_grid(b, precision)
    res = None
    if out is not None:
        ensure(isinstance(out, gdspy.PolygonSet), "result", out)
        res = [numpy.asarray(p) for p in out.polygons]
        for p in res or []:
            k = p / precision if len(b) else numpy.zeros(1)
            ensure(float(numpy.abs(k - numpy.round(k)).max()) < 1e-4 * max(1, numpy.abs(k).max() * 1e-9), "vertex off the precision grid", p.tolist())
            if maxp > 4:
                ensure(len(p) <= maxp, "polygon with", len(p), "vertices, limit", maxp)
    exp, lim = judge(ga, gb, op, res, precision, 2 * precision, ctx, op)
    both = R.expected_area(ga, gb, "and")
    ctx.nt(both > lim)
    ctx.label(op, "empty" if res is None else "result", "holes" if res is not None and any(len(p) != len(numpy.unique(p, axis=0)) for p in res) else "no holes")


def huge(case, ctx):
    """Coordinates up to the limits of the integer arithmetic."""
    a, b, op, k, shift = case
    f = 2.0 ** k
    sx, sy = shift
    A = [[((x + sx) * f, (y + sy) * f) for x, y in p] for p in a]
    B = [[((x + sx) * f, (y + sy) * f) for x, y in p] for p in b]
    out = gdspy.boolean(A, B, op, precision=1, max_points=0)
    res = None if out is None else [(numpy.asarray(p) / f - numpy.array([sx, sy])) for p in out.polygons]
    tol = max(2.0 ** -k, 1e-9)
    exp, lim = judge([oracle.arr(p) for p in a], [oracle.arr(p) for p in b], op, res, 1, 2 * tol, ctx, "huge " + op)
    ctx.nt(R.expected_area(a, b, "and") > lim)
    ctx.label("2^%d" % (k // 10 * 10))


def check(case, ctx, rare=Rare()):
    rare(region, case, ctx, lambda c: R.jittered(c, 2, 20 * c[3]))


def check_huge(case, ctx, rare=Rare()):
    rare(huge, case, ctx, lambda c: R.jittered(c, 2, max(1e-3, 20 * 0.5 ** c[3])))


ints = st.one_of(
    st.lists(st.tuples(R.small, R.small), min_size=3, max_size=6), R.cellsq, R.ring(), st.tuples(st.integers(-9, 9), st.integers(-9, 9), st.integers(1, 9), st.integers(1, 9)).map(
        lambda t: [(t[0], t[1]), (t[0] + t[2], t[1]), (t[0] + t[2], t[1] + t[3]), (t[0], t[1] + t[3])]
    ),
)
OP = st.sampled_from(["or", "and", "xor", "not"])


def check_many(case, ctx):
    """Arrays of shapes with many holes and long results."""
    nx, ny, w, gap, frame, op, prec = case
    pitch = w + gap
    holes = [[(i * pitch, j * pitch), (i * pitch + w, j * pitch), (i * pitch + w, j * pitch + w), (i * pitch, j * pitch + w)] for i in range(nx) for j in range(ny)]
    box = [[(-frame, -frame), (nx * pitch + frame, -frame), (nx * pitch + frame, ny * pitch + frame), (-frame, ny * pitch + frame)]]
    out = gdspy.boolean(box, holes, op, precision=prec, max_points=0)
    res = None if out is None else [numpy.asarray(p) for p in out.polygons]
    judge(R.on_grid(box, prec), R.on_grid(holes, prec), op, res, prec, 2 * prec, ctx, "many " + op)
    ctx.nt(nx * ny > 1)


def empty(case, ctx):
    """Nothing, or None, on either side, also with polygons that vanish."""
    a, form, op, precision, maxp, swap, k = case
    A = [[(x * k, y * k) for x, y in p] for p in a]
    other = {"list": [], "tuple": (), "none": None, "set": gdspy.PolygonSet([])}[form]
    if swap and other is None:
        other = []
    out = gdspy.boolean(*((other, A) if swap else (A, other)), op, precision=precision, max_points=maxp)
    ensure(out is None or len(out.polygons) > 0, "empty result is not None")
    if other is None and op == "and":
        # one operand: the polygons of the operand among themselves
        return
    ga = R.on_grid(A, precision) if op == "or" or swap else [oracle.arr(p) for p in A]
    res = None if out is None else [numpy.asarray(p) for p in out.polygons]
    exp, lim = judge(*(([], ga) if swap else (ga, [])), op, res, precision, 2 * precision, ctx, op) if op == "or" or swap else judge(ga, [], op, res, precision, 2 * precision, ctx, op)
    ctx.nt(exp > lim or op == "and")
    ctx.label(form, op, "second" if swap else "first")


def check_empty(case, ctx, rare=Rare()):
    rare(empty, case, ctx, lambda c: R.jittered(c, 1, 20 * c[3]))


def mesh(bars, vertical, frame):
    """Bars of a mesh: no two of their edges lie on a line."""
    out = []
    for n, (a, length, wid) in enumerate(bars):
        u0 = 10 * a + 0.131 * n + (0.05 if vertical else 0)
        u1 = u0 + 10 * length + 3.017
        v0 = 10 * n + 4.3 + (0.271 if vertical else 0)
        p = [(u0, v0), (u1, v0), (u1, v0 + wid), (u0, v0 + wid)]
        if vertical:
            p = [(y, x) for x, y in p[::-1]]
        out.append([(frame[0] * x + frame[1] * y, frame[2] * x + frame[3] * y) for x, y in p])
    return out


def cells(case, ctx):
    """Crossing bars: many holes in every position, linked with the outlines."""
    a, b, frame, op, one, maxp, prec = case
    A, B = mesh(a, False, frame), mesh(b, True, frame)
    if one:
        A, B = A + B, []
    out = gdspy.boolean(A, B, op, max_points=maxp, precision=prec)
    res = None if out is None else [numpy.asarray(p) for p in out.polygons]
    ga, gb = R.on_grid(A, prec), R.on_grid(B, prec)
    exp, lim = judge(ga, gb, op, res, prec, 2 * prec, ctx, op)
    ctx.nt(exp > lim)
    ctx.label("holes" if res is not None and any(len(p) != len(numpy.unique(p, axis=0)) for p in res) else "no holes")


def check_cells(case, ctx, rare=Rare()):
    rare(cells, case, ctx, lambda c: ((c[0], c[1], [f + 0.01 * k * (-1) ** i for i, f in enumerate(c[2])], *c[3:6], 1e-3) for k in (1, 2, 3, 4)))


bars = st.lists(st.tuples(st.integers(0, 4), st.integers(0, 7), st.sampled_from([1.1, 3.3, 5.7])), min_size=1, max_size=8)
frames = st.sampled_from([(1, 0, 0, 1)] * 4 + [(1, 0.37, 0, 1), (0.8, -0.6, 0.6, 0.8), (0.9, -0.45, 0.5, 0.85), (0, -1, 1, 0), (0.3, 1, -1, 0.41)])


SUBS = [
    Sub("cells", st.tuples(bars, bars, frames, OP, st.booleans(), st.sampled_from([0, 199, 5]), st.sampled_from([1e-3, 0.01])), check_cells, 1500),
    Sub(
        "empty",
        st.tuples(R.polys1, st.sampled_from(["list", "tuple", "none", "set"]), OP, st.sampled_from([1e-3, 1e-2, 0.1, 1e-6, 1e-6]), st.sampled_from([199, 0, 5, 8]), st.booleans(),
                  st.sampled_from([1, 1, 1, 1e-2, 1e-4])),
        check_empty, 2000,
    ),
    Sub("region", st.tuples(R.polys1, R.polys, OP, R.precision, st.sampled_from([199, 199, 0, 5, 8])), check, 3600),
    Sub(
        "huge",
        st.tuples(
            st.lists(ints.map(R.untangle), min_size=1, max_size=3), st.lists(ints.map(R.untangle), min_size=1, max_size=3), OP,
            st.integers(0, 56), st.one_of(st.just((0, 0)), st.tuples(st.integers(-20, 20), st.integers(-20, 20))),
        ),
        check_huge, 1600,
    ),
    Sub(
        "holes",
        st.tuples(
            st.integers(1, 4), st.integers(1, 4), st.sampled_from([1, 0.5, 2]), st.sampled_from([1, 0.25, 0]),
            st.sampled_from([1, 0, 0.5, -0.5]), OP, st.sampled_from([1e-3, 1e-2]),
        ),
        check_many, 240,
    ),
]
