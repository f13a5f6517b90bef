"""Smooth interpolating curves."""
import math

import gdspy
import gen
import numpy
import strokes
from core import Rare, Sub, ensure
from hypothesis import assume
from hypothesis import strategies as st
from hobbymodel import model

RULE = (
    "2 to 7 distinct points, no exact reversals, with or without angles (also beyond a turn), curls, tensions (single or one per point), open or cyclic; "
    "after or without earlier pieces. Non-trivial: an angle in the middle, a cyclic curve, or different tensions."
)
ASSUMPTIONS = [
    "Hobby's equations as published: equal mock curvature on both sides of free points, curl at free ends, his velocity function",
    "curves may be off by 2.3 times the tolerance between samples (4 times for polygonal paths, which only test the middle of each chord); more is tolerated up to one per 1000 cases if neighbouring curves are fine",
    "systems that are close to singular and directions within 1e-4 of an exact reversal are not judged",
]


def xy(c):
    return numpy.array([c.real, c.imag])


def full(value, n):
    return [value] * n if isinstance(value, (int, float)) else list(value)


def arguments(case):
    pts, angles, cs, ce, ti, to, cycle = case
    kw = {}
    if angles is not None:
        kw["angles"] = angles
    if (cs, ce) != (1, 1):
        kw.update(curl_start=cs, curl_end=ce)
    if ti != 1:
        kw["t_in"] = ti
    if to != 1:
        kw["t_out"] = to
    if cycle:
        kw["cycle"] = True
    return kw


def control(spec, ctx, angles=None):
    """The right control points, and the ones with the directions not reduced
    to a turn as in the known finding, or None if they should not be judged."""
    pts, given, cs, ce, ti, to, cycle = spec
    n = len(pts)
    args = pts, angles or given or [None] * n, cs, ce, full(ti, n), full(to, n), cycle
    m = model(*args)
    if m is None:
        ctx.label("not judged")
        return None
    if cycle or isinstance(ti, list) or isinstance(to, list) or given and any(a is not None for a in given[1:-1]):
        ctx.nt()
    raw = model(*args, turn=lambda a: a)
    if raw is None:
        ctx.label("not judged")
        return None
    return [m] if close(m, raw) else [m, raw]


def close(m, n):
    return max(abs(a - b) for p, q in zip(m, n) for a, b in zip(p, q)) <= 1e-6 * max(abs(c - p[0]) for p in m + n for c in p)


def any_of(models, f, ctx):
    """f holds for the right control points, or for those of the known finding."""
    for m in models:
        try:
            r = f(m)
            if m is not models[0]:
                ctx.label("as in the known finding")
            return r
        except AssertionError as e:
            if m is models[0]:
                first = e
    raise first


US = [0, 0.25, 0.5, 0.75]
FIT = numpy.linalg.inv([[(1 - u) ** 3, 3 * u * (1 - u) ** 2, 3 * u * u * (1 - u), u ** 3] for u in US])


def seen(path, k, count):
    """Control points of the pieces from number k on, from public evaluations."""
    return [list(FIT @ numpy.array([path(i + u)[0] for u in US])) for i in range(k, k + count)]


def check_handles(case, ctx):
    spec, pre, rel, turns = case
    pts, angles = spec[:2]
    r = gdspy.RobustPath(pts[0] if not pre else numpy.subtract(pts[0], pre), 0.01)
    if pre:
        r.segment(pre, relative=True)
    kw = arguments(spec)
    if angles is not None and turns:
        kw["angles"] = [a if a is None else a + turns[i % len(turns)] * 2 * math.pi for i, a in enumerate(angles)]
    models = control(spec, ctx, kw.get("angles"))
    p0 = numpy.array(r.x)
    new = [tuple(float(c) for c in numpy.subtract(p, p0)) for p in pts[1:]] if rel else pts[1:]
    try:
        ret = r.smooth(new, relative=rel, **kw)
    except numpy.linalg.LinAlgError:
        ensure(models is None, "regular system reported as singular")
        return
    ensure(ret is r, "chaining")
    count = len(pts) if spec[6] else len(pts) - 1
    k0 = 1 if pre else 0
    ensure(len(r) == k0 + count, "number of pieces", len(r))
    got = seen(r, k0, count)
    big = 1 + float(numpy.abs(pts).max())
    if models is None and not numpy.isfinite(got).all():
        ctx.label("exact reversal")
        return
    # interpolation, in order, even when the angles are not judged
    for i, g in enumerate(got):
        ensure(numpy.abs(g[0] - pts[i]).max() <= 1e-9 * big, "piece", i, "starts at", g[0])
        ensure(numpy.abs(g[3] - pts[(i + 1) % len(pts)]).max() <= 1e-9 * big, "piece", i, "ends at", g[3])
    if models is None:
        return
    # tangents
    for i in range(count):
        a = got[i][1] - got[i][0]
        if i or spec[6]:
            b = got[i - 1][3] - got[i - 1][2]
            la, lb = numpy.hypot(*a), numpy.hypot(*b)
            ensure(abs(a[0] * b[1] - a[1] * b[0]) <= 1e-7 * la * lb + 1e-12 and (a @ b > -1e-12), "kink at point", i)
        if angles and angles[i] is not None:
            ensure(strokes.angle_error(math.atan2(a[1], a[0]), angles[i]) < 1e-6, "direction at point", i, "is", math.atan2(a[1], a[0]))
    if angles and angles[-1] is not None and not spec[6]:
        a = got[-1][3] - got[-1][2]
        ensure(strokes.angle_error(math.atan2(a[1], a[0]), angles[-1]) < 1e-6, "final direction", math.atan2(a[1], a[0]))

    def same(m):
        for i in range(count):
            size = max(abs(m[i][3] - m[i][0]), *(abs(c - m[i][0]) for c in m[i]))
            for g, w, what in zip(got[i], m[i], ("start", "first control point", "second control point", "end")):
                ensure(numpy.abs(g - xy(w)).max() <= 1e-6 * size + 1e-9 * big, what, "of piece", i, g, "instead of", xy(w))

    any_of(models, same, ctx)


rare = Rare()


def run_agree(case, ctx):
    spec, kind, rel, tol = case
    pts, angles, cs, ce, ti, to, cycle = spec
    models = control(spec, ctx)
    assume(models is not None)
    any_of(models, lambda m: agree(case, ctx, m), ctx)


def near(case):
    (pts, *rest), kind, rel, tol = case
    for d in (0.11, -0.17):
        yield (([(x + d * (i + 1), y - d / (i + 2)) for i, (x, y) in enumerate(pts)], *rest), kind, rel, tol)


def check_agree(case, ctx):
    rare(run_agree, case, ctx, near)


def agree(case, ctx, m):
    spec, kind, rel, tol = case
    pts, angles, cs, ce, ti, to, cycle = spec
    kw = arguments(spec)
    big = 1 + float(numpy.abs(pts).max())
    new = [(p[0] - pts[0][0], p[1] - pts[0][1]) for p in pts[1:]] if rel else pts[1:]
    if kind == "curve":
        c = gdspy.Curve(*pts[0], tolerance=tol)
        (c.i if rel else c.I)(new, **kw)
        line = numpy.array(c.points, dtype=float)
    elif kind == "flex":
        c = gdspy.FlexPath([pts[0]], 0.01, tolerance=tol)
        c.smooth(new, relative=rel, **kw)
        line = numpy.array(c.points, dtype=float)
    else:
        size = max(abs(c - p[0]) for p in m for c in p)
        w = 1e-4 * size
        c = gdspy.Path(2 * w, pts[0])
        c.smooth(new, tolerance=tol, relative=rel, max_points=0, **kw)
        ensure(len(c.polygons) == len(m), "number of pieces", len(c.polygons))
        lines = []
        for p in c.polygons:
            h = len(p) // 2
            ensure(len(p) == 2 * h, "vertices of the two borders")
            lines.append((p[:h] + p[: h - 1 : -1]) / 2)
        e = xy(m[-1][3])
        ensure(numpy.abs(numpy.array([c.x, c.y]) - e).max() <= 1e-9 * big, "end point of the path", c.x, c.y)
        t = m[-1][3] - m[-1][2]
        if abs(t) > 1e-6:
            ensure(strokes.angle_error(strokes.angle_of(c.direction), math.atan2(t.imag, t.real)) < 1e-4, "direction", c.direction)
        for p, q in zip(lines, m):
            f = strokes.bezier([xy(v) for v in q])[0]
            ensure(max(numpy.abs(p[0] - xy(q[0])).max(), numpy.abs(p[-1] - xy(q[3])).max()) <= 1e-6 * big, "ends of a piece")
            strokes.on_curve(p[1:], p[0], f, tol + w, kind, 4, 301)
        ctx.label(kind)
        return
    ctx.label(kind)
    # split at the interpolated points
    j = 1
    for i, q in enumerate(m):
        f = strokes.bezier([xy(v) for v in q])[0]
        if i == len(m) - 1:
            found = [len(line)]
        else:
            hit = numpy.abs(line[j:] - xy(q[3])).max(axis=1) <= 1e-9 * big
            found = [int(h) + j + 1 for h in hit.nonzero()[0]]
        ensure(found and numpy.abs(line[found[-1] - 1] - xy(q[3])).max() <= 1e-9 * big, "does not go through point", i + 1)
        for e in found:
            try:
                strokes.on_curve(line[j:e], line[j - 1], f, tol, kind, 2.3, 301)
                break
            except AssertionError:
                if e == found[-1]:
                    raise
        j = e


def check_similar(case, ctx):
    """Rotation, scaling, translation, reflection and reversal of the data."""
    spec, (angle, scale, shift, flip, back) = case
    pts, angles, cs, ce, ti, to, cycle = spec
    assume(len(control(spec, ctx) or []) == 1)
    n = len(pts)

    def handles(pts, angles, cs, ce, ti, to):
        r = gdspy.RobustPath(pts[0], 0.01)
        r.smooth(pts[1:], angles, cs, ce, ti, to, cycle, relative=False)
        return seen(r, 0, n if cycle else n - 1)

    a = handles(pts, angles, cs, ce, ti, to)
    s = -1 if flip else 1

    def move(p):
        x, y = p[0], s * p[1]
        c, i = math.cos(angle), math.sin(angle)
        return numpy.array([scale * (x * c - y * i) + shift[0], scale * (x * i + y * c) + shift[1]])

    pts2 = [move(p) for p in pts]
    ang2 = None if angles is None else [None if x is None else s * x + angle for x in angles]
    want = [[move(p) for p in q] for q in a]
    if back:
        order = [0] + list(range(n - 1, 0, -1)) if cycle else list(range(n - 1, -1, -1))
        pts2 = [pts2[i] for i in order]
        if ang2 is not None:
            ang2 = [None if ang2[i] is None else ang2[i] + math.pi for i in order]
        pick = lambda t: [t[i] for i in order] if isinstance(t, list) else t
        ti, to = pick(to), pick(ti)
        cs, ce = ce, cs
        want = [q[::-1] for q in want[::-1]]
        ctx.label("reversed")
    assume(len(control((pts2, ang2, cs, ce, ti, to, cycle), ctx) or []) == 1)
    b = handles(pts2, ang2, cs, ce, ti, to)
    big = 1 + max(float(numpy.abs(want).max()), float(numpy.abs(pts).max()) * scale)
    for i, (p, q) in enumerate(zip(b, want)):
        ensure(numpy.abs(numpy.subtract(p, q)).max() <= 1e-7 * big, "piece", i, p, "instead of", q)


def check_turns(case, ctx):
    """The shape of the curve does not depend on whole turns in its angles."""
    r = [gdspy.RobustPath((0, 0), 0.01).smooth([(4, 1), (7, 5), (12, 4)], angles=[None, a, None, None]) for a in (1, 1 + 2 * math.pi)]
    p, q = (seen(x, 0, 3) for x in r)
    ensure(numpy.abs(numpy.subtract(p, q)).max() < 1e-6, "angles 1 and 1 + 2 pi give different curves")


co = st.one_of(st.integers(-20, 20), gen.grid(-20000, 20000))
ang = st.one_of(st.sampled_from([0.0, math.pi / 2, math.pi, -math.pi / 2, 3.0, -3.0]), st.integers(-314, 314).map(lambda k: k / 100))
tension = st.sampled_from([1, 0.75, 0.8, 1.25, 2, 3.5])


@st.composite
def spec(draw):
    n = draw(st.integers(2, 7))
    pts = draw(st.lists(st.tuples(co, co), min_size=n, max_size=n, unique=True))
    cycle = n > 2 and draw(st.booleans())
    loop = pts + [pts[0]] if cycle else pts
    size = max(math.dist(p, pts[0]) for p in pts)
    assume(min(math.dist(p, q) for p, q in zip(loop, loop[1:])) >= 0.02 * size)
    angles = None
    if draw(st.booleans()):
        angles = [draw(ang) if draw(st.integers(0, 2)) == 0 else None for _ in range(n)]
    ti, to = (draw(st.one_of(st.just(1), tension, st.lists(tension, min_size=n, max_size=n))) for _ in range(2))
    curl = st.sampled_from([1, 1, 0, 0.5, 2, 10])
    return (pts, angles, draw(curl), draw(curl), ti, to, cycle)


SUBS = [
    Sub(
        "handles",
        st.tuples(spec(), st.sampled_from([None, None, (3, 4), (-1, 0.5)]), st.booleans(), st.sampled_from([None, [0], [1], [-1, 2], [0, 1, -1]])),
        check_handles,
        4000,
    ),
    Sub("agree", st.tuples(spec(), st.sampled_from(["curve", "flex", "path"]), st.booleans(), st.sampled_from([0.01, 0.1])), check_agree, 900),
    Sub(
        "similar",
        st.tuples(
            spec(),
            st.tuples(ang, st.sampled_from([1, 2, 0.5, 1000]), st.sampled_from([(0, 0), (10, -3.5)]), st.booleans(), st.booleans()),
        ),
        check_similar,
        2000,
    ),
    Sub("turns", st.just("turns"), check_turns, 0, 0),
]
