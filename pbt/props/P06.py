"""Evaluation of robust paths."""
import math

import gdspy
import gen
import numpy
import robustmodel as rm
import strokes
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "1 to 7 calls (segments, arcs, turns, Bezier, smooth and parametric curves, translation, rotation, scaling, reference transformations, polygon queries) on 1 to 4 "
    "parallel elements; widths and offsets kept, linear, per element or given as functions. Evaluated at ends, junctions from both sides, and inside. "
    "Non-trivial: an offset on a curved piece or a transformation between pieces."
)
ASSUMPTIONS = [
    "positive offsets are to the right of the direction",
    "gradients and boundaries are computed numerically by the code with steps of half the inverse of the evaluation limit; the tolerance follows from second derivatives of the model",
    "at the ends of curves without given derivative, one-sided differences make the gradients of displaced elements inaccurate (pinned by the existing tests); they are not judged there",
    "points where the curve stands still are not evaluated",
]

CALLS = ("segment", "arc", "turn", "bezier", "parametric", "smooth")


def bend(p, u, h):
    """Largest change of the slope of the displaced curve within h of u."""
    us = [min(1, max(0, u + d * h)) for d in (-2, -1, 0, 1, 2)]
    g = [p.slope(v, 1e-5) for v in us]
    return max(math.hypot(*(a - g[2])) for a in g)


def judge(path, m, h, ctx, us):
    n = len(m.pieces[0])
    ensure(len(path) == n, "number of pieces", len(path), "instead of", n)
    size = 1 + max(float(numpy.abs(m.x).max()), 1)
    ensure(numpy.abs(numpy.array(path.x, dtype=float) - m.x).max() <= 1e-9 * size, "end point", path.x, "instead of", m.x)
    ensure(numpy.allclose(numpy.array(path.offsets, dtype=float), m.o, rtol=1e-9, atol=1e-9), "final offsets", path.offsets, m.o)
    ensure(numpy.allclose(numpy.array(path.widths, dtype=float), m.w, rtol=1e-9, atol=1e-9), "final widths", path.widths, m.w)
    for j in range(n):
        for u in us:
            where = "at %r" % (j + u)
            ends = u in (0, 1)
            if not ends:
                v, v1 = j + u, None
            elif u == 0:
                v = j
            else:
                v = j + 1
                if j + 1 < n:
                    v = None  # position and width there are those of the next piece
            ps = [p[j] for p in m.pieces]
            fast = [min(p.speed(min(1, max(0, u + d * h))) for d in (-2, -1, 0, 1, 2)) for p in ps]
            top = [max(p.speed(w) for w in (0, 0.3, 0.5, 0.7, 1)) for p in ps]
            if min(f - 0.02 * t for f, t in zip(fast, top)) <= 0:
                ctx.label("standstill")
                continue
            g0 = path.grad(j + u, 0, "-" if u == 1 else "+")
            ensure(numpy.shape(g0) == (m.n, 2), "shape of the gradients")
            if v is not None:
                at, arms, wid = path(v), [path(v, arm) for arm in (-1, 1)], path.width(v)
                ensure(numpy.shape(at) == (m.n, 2) and numpy.shape(wid) == (m.n,), "shape of the result")
            for i, p in enumerate(ps):
                big = 1 + numpy.abs(p.at(u)).max() + abs(p.off(u)) * p.s
                slope = p.slope(u)
                change = bend(p, u, h)
                # numerical derivatives of the curve given without them
                fd = 4 * h * max(math.hypot(*(p.df(min(1, max(0, u + d * h))) - p.df(u))) / h for d in (-1, 1)) / fast[i]
                ragged = p.numeric and (u < 3 * h or u > 1 - 3 * h) and p.off(u) != 0
                ensure(
                    ragged or math.hypot(*(g0[i] - slope)) <= 1.5 * change + 1e-4 * (1 + math.hypot(*slope)) + 1e-6 * big / h,
                    "gradient of element", i, where, "is", g0[i], "instead of", slope,
                )
                if v is None:
                    continue
                tol = 1e-9 * big + (abs(p.off(u)) * fd * p.scale if p.numeric else 0)
                ensure(numpy.abs(at[i] - p.at(u)).max() <= tol, "position of element", i, where, "is", at[i], "instead of", p.at(u))
                if math.hypot(*slope) < 0.02 * top[i] * p.scale:
                    ctx.label("element standing still")
                    continue
                w = p.width(u)
                ensure(abs(wid[i] - abs(w)) <= 1e-7 * (1 + abs(w)), "width of element", i, where, "is", wid[i], "instead of", w)
                ensure(abs(math.hypot(*(arms[1][i] - arms[0][i])) - abs(w)) <= 1e-7 * (1 + abs(w)), "distance of the boundaries")
                ensure(numpy.abs((arms[0][i] + arms[1][i]) / 2 - at[i]).max() <= 1e-9 * big, "boundaries not centred", where)
                if math.hypot(*slope) > 1e-6 * big and change < 0.3 * math.hypot(*slope) and not ragged:
                    right = numpy.array([slope[1], -slope[0]]) / math.hypot(*slope)
                    for arm, a in zip((-1, 1), arms):
                        b = p.at(u) + arm * w / 2 * right
                        ensure(
                            numpy.abs(a[i] - b).max() <= tol + abs(w) * (1.5 * change / math.hypot(*slope) + 1e-4),
                            "boundary", arm, "of element", i, where, "is", a[i], "instead of", b,
                        )
                    ctx.label("boundary")


def check(case, ctx):
    x, widths, offsets, form, evals, gds, ops, us = case
    kw = {} if evals == 1000 else {"max_evals": evals}
    if gds:
        kw["gdsii_path"] = True
        if gds == "absolute":
            kw["width_transform"] = False
        ops = [(op[0], None) + tuple(op[2:]) if op[0] in CALLS else op for op in ops]
    elif int(abs(x[0])) % 2:
        # without effect
        kw["width_transform"] = False
    n = len(widths)
    if form == "list":
        path = gdspy.RobustPath(x, list(widths), list(offsets), **kw)
    elif form == "pitch":
        offsets = [(i - (n - 1) / 2) * offsets[0] for i in range(n)]
        path = gdspy.RobustPath(x, list(widths), case[2][0], **kw)
    elif form == "width":
        widths = [widths[0]] * n
        path = gdspy.RobustPath(x, widths[0], list(offsets), **kw)
    else:
        widths, offsets = widths[:1], offsets[:1]
        path = gdspy.RobustPath(x, widths[0], offsets[0], **kw)
        n = 1
    cut = lambda v: v[:n] if isinstance(v, list) else v
    ops = [(op[0], cut(op[1]), cut(op[2])) + tuple(op[3:]) if op[0] in CALLS else op for op in ops]
    m = rm.Model(x, widths, offsets, keep=gds == "absolute")

    def query(p, op):
        if len(p):
            p(op[1] * len(p)), p.width(op[1] * len(p))

    # a turn needs a direction
    first = next((i for i, op in enumerate(ops) if op[0] in ("segment", "arc", "bezier", "parametric", "smooth")), len(ops))
    if any(op[0] == "turn" for op in ops[:first]):
        try:
            path.turn(1, 1)
        except ValueError:
            ctx.label("turn of an empty path")
        else:
            ensure(False, "turn of an empty path without complaint")
        ops = [op for i, op in enumerate(ops) if i >= first or op[0] != "turn"]
    rm.play(path, m, ops, ctx, query)
    for ps in m.pieces:
        for p in ps:
            p.scale = abs(numpy.linalg.det(p.M)) ** 0.5
    if not m.pieces[0] or not numpy.isfinite(m.x).all():
        return
    kinds = [op[0] for op in ops]
    moves = [i for i, k in enumerate(kinds) if k in ("translate", "rotate", "scale", "transform")]
    if any(k in ("arc", "turn", "bezier", "parametric", "smooth") for k in kinds) and any(offsets) or moves and moves[0] < len(ops) - 1:
        ctx.nt()
    judge(path, m, 0.5 / evals, ctx, us)


num = st.one_of(st.integers(-20, 20), gen.grid(-20000, 20000))
pt = st.tuples(num, num)
ang = st.one_of(st.sampled_from([0.0, math.pi / 2, math.pi, -math.pi / 2]), st.integers(-628, 628).map(lambda k: k / 100))
sweep = st.one_of(st.sampled_from([math.pi / 2, -math.pi / 2, math.pi]), st.integers(-400, 400).map(lambda k: k / 100).filter(lambda a: abs(a) > 0.05))
rad = st.one_of(st.integers(3, 20), gen.grid(1000, 20000))
w1 = st.one_of(st.sampled_from([0.5, 1, 2]), gen.grid(100, 3000))
o1 = st.one_of(st.integers(-3, 3), gen.grid(-3000, 3000))
wf = st.tuples(st.just("bump"), w1, st.sampled_from([1, 2, -0.2]))
of = st.one_of(st.tuples(st.just("bump"), o1, st.sampled_from([1, -2])), st.tuples(st.just("wave"), st.sampled_from([0.5, -1]), st.sampled_from([1, 3])))
width = st.one_of(st.none(), st.none(), w1, wf, st.lists(st.one_of(w1, wf), min_size=4, max_size=4))
offset = st.one_of(st.none(), st.none(), o1, of, st.lists(st.one_of(o1, of), min_size=4, max_size=4))
far = pt.filter(lambda p: math.hypot(*p) > 1)
build = [
    st.tuples(st.just("segment"), width, offset, far, st.booleans()),
    st.tuples(st.just("arc"), width, offset, rad, ang, sweep),
    st.tuples(st.just("turn"), width, offset, rad, st.one_of(sweep, st.sampled_from(["l", "r", "ll", "rr"]))),
    st.tuples(st.just("bezier"), width, offset, st.lists(pt, min_size=1, max_size=4), st.booleans()),
    st.tuples(st.just("parametric"), width, offset, st.lists(pt, min_size=1, max_size=3), st.booleans(), st.booleans()),
    st.tuples(st.just("smooth"), width, offset, st.lists(far, min_size=1, max_size=3), st.booleans()),
]
mag = st.sampled_from([2, 0.5, 1.5, 3])
center = st.one_of(st.just((0, 0)), pt)
moves = [
    st.tuples(st.just("translate"), pt),
    st.tuples(st.just("rotate"), ang, center),
    st.tuples(st.just("scale"), mag, center),
    st.tuples(st.just("transform"), st.one_of(st.none(), pt), st.one_of(st.none(), ang), st.one_of(st.none(), mag), st.booleans(), st.one_of(st.none(), pt)),
    st.tuples(st.just("query"), st.sampled_from([0, 0.5, 1])),
]
ops = st.lists(st.one_of(*build, *build, *moves), min_size=1, max_size=7)
four = lambda s: st.lists(s, min_size=1, max_size=4)


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    return (
        draw(pt), draw(st.lists(w1, min_size=n, max_size=n)), draw(st.lists(o1, min_size=n, max_size=n)), draw(st.sampled_from(["list", "list", "pitch", "width", "one"])),
        draw(st.sampled_from([1000, 1000, 200])), draw(st.sampled_from([False, False, False, True, "absolute"])), draw(ops),
        draw(st.sampled_from([[0, 1, 0.5], [0, 1, 0.25, 0.7], [0, 1, 0.001]])),
    )


SUBS = [Sub("evaluation", cases(), check, 2500)]
