"""Construction and transformation of flexible paths."""
import math
import warnings

import gdspy
import gen
import numpy
import oracle
import strokes
from flexmodel import displaced
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Histories of 1 to 8 calls on a path of 1 to 3 elements: all drawing calls (absolute and relative, new widths and offsets as numbers or "
    "lists), translation, rotation, positive scaling, combined transformations and queries in between. Non-trivial: two drawing calls and a "
    "transformation or query."
)
ASSUMPTIONS = [
    "parametric curves start at the current point, as documented, and are regular",
    "along a parametric curve widths and offsets change linearly with the vertex number (known finding), from the current to the requested values",
    "smooth corners and ends are drawn only where no border runs backwards (Hobby's spline is singular for reversals)",
    "paths that double back on themselves are compared by their vertices only",
    "reflections are applied to paths with all elements on the spine only (known finding)",
    "regions after scaling are compared within the tolerance, because curved corners and ends are drawn anew",
]


class Degenerate(Exception):
    pass


class Model:
    def __init__(self, points, width, offset):
        self.p = [numpy.array(q, dtype=float) for q in points]
        self.w = [list(map(float, width)) for _ in points]
        self.o = [list(map(float, offset)) for _ in points]


def close(a, b, tol):
    return numpy.shape(a) == numpy.shape(b) and numpy.abs(numpy.array(a) - numpy.array(b)).max() <= tol


def reversal(p):
    """Does the spine double back on itself?"""
    d = numpy.diff(numpy.asarray(p, dtype=float), axis=0)
    n = numpy.hypot(*d.T)
    d = d[n > 0] / n[n > 0][:, None]
    return bool(((d[1:] * d[:-1]).sum(axis=1) < -0.995).any())


def folds(m):
    """Do displaced centre lines or borders run backwards somewhere?"""
    keep = [0] + [j for j in range(1, len(m.p)) if (m.p[j] != m.p[j - 1]).any()]
    P = numpy.array([m.p[j] for j in keep])
    if len(P) < 2 or reversal(P):
        return len(P) > 1
    for i in range(len(m.w[0])):
        for s in (-0.5, 0, 0.5):
            if not displaced(P, [m.o[j][i] + s * m.w[j][i] for j in keep])[1]:
                return True
    return False


def call(path, op):
    """Apply a drawing call as recorded in the case."""
    k, args, kw = op
    kw = {a: (list(b) if isinstance(b, list) else b) for a, b in kw.items()}
    if k == "parametric":
        f, df = curve(args)
        if kw.get("relative", True):
            return path.parametric(f, **kw)
        base = numpy.array(path.points[-1], dtype=float)
        return path.parametric(lambda u: base + f(u), **kw)
    if k == "move":
        n, a = args
        return getattr(path, n)(*a)
    return getattr(path, k)(*args, **kw)


def curve(args):
    if args[0] == "poly":
        return strokes.poly(args[1])
    r, t, a = args[1:]
    # a spiral through the origin
    def f(u):
        return numpy.array([r * (1 + a * u) * math.cos(t * u) - r, r * (1 + a * u) * math.sin(t * u)])

    def df(u):
        return numpy.array([
            r * a * math.cos(t * u) - r * (1 + a * u) * t * math.sin(t * u), r * a * math.sin(t * u) + r * (1 + a * u) * t * math.cos(t * u)
        ])

    return f, df


def targets(m, kw, fixed):
    """Width and offset rows requested by a drawing call."""
    w = m.w[-1]
    if not fixed and kw.get("width") is not None:
        w = list(map(float, kw["width"])) if isinstance(kw["width"], list) else [float(kw["width"])] * len(w)
    o = m.o[-1]
    if kw.get("offset") is not None:
        o = list(map(float, kw["offset"])) if isinstance(kw["offset"], list) else [a + kw["offset"] for a in o]
    return numpy.array(w), numpy.array(o)


def run(case, ctx, queries):
    (points, width, offset, corner, end, radius, tol, gp, wt, layers), ops = case
    kw = dict(corners=corner, ends=end, tolerance=tol, max_points=0, layer=layers)
    if radius is not None:
        kw["bend_radius"] = radius
    if gp:
        kw["gdsii_path"] = True
    if not wt:
        kw["width_transform"] = False
    n = len(width)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        # a single point may be given by itself
        given = points[0] if len(points) == 1 and len(ops) % 3 else numpy.array(points) if len(ops) % 2 else points
        path = gdspy.FlexPath(given, list(width), list(offset), **kw)
    m = Model(points, width, offset)
    draws = moves = 0
    for op in ops:
        k, args, ckw = op
        if k == "query":
            if queries:
                if "smooth" in (corner, end) and folds(m):
                    raise Degenerate
                path.get_polygons(args)
                moves += 1
            continue
        if k == "turn" and (len(m.p) < 2 or not (m.p[-1] != m.p[-2]).any()):
            continue
        if k == "smooth":
            q = [m.p[-1]] + [numpy.array(t) + (m.p[-1] if ckw.get("relative", True) else 0) for t in args[0]]
            if ckw.get("cycle"):
                q.append(q[0])
            if any(numpy.abs(a - b).max() < 1e-3 for a, b in zip(q, q[1:])):
                continue
        n0 = len(path.points)
        if k == "move":
            name, a = args
            if name == "transform" and a[3] and (any(any(r) for r in m.o) or isinstance(end, tuple) and False):
                args = (name, (a[0], a[1], a[2], False, a[4]))
                name, a = args
                op = (k, args, ckw)
            if queries and "smooth" in (corner, end) and folds(m):
                raise Degenerate
            old = path.get_polygons(True) if queries else None
            a = tuple(numpy.array(q, dtype=float) if isinstance(q, tuple) else q for q in a) if name == "transform" else a
            r = call(path, (k, (name, a), ckw))
            ensure(r is path, "chaining", name)
            s = 1.0
            if name == "translate":
                f = lambda p: p + numpy.array(a)
            elif name == "rotate":
                f = lambda p: oracle.rot(p, *a)
            elif name == "scale":
                c = numpy.array(a[1] if len(a) > 1 else (0, 0), dtype=float)
                s = a[0]
                f = lambda p: (p - c) * a[0] + c
            else:
                t, ro, mg, refl, at = a
                s = mg or 1.0
                f = lambda p: oracle.place(p if at is None else numpy.asarray(p) + at / s, (0, 0) if t is None else t, None if ro is None else math.degrees(ro), mg, refl)
            m.p = [f(numpy.array([q]))[0] for q in m.p]
            if wt or not gp:
                m.w = [[x * s for x in r] for r in m.w]
            m.o = [[x * s for x in r] for r in m.o]
            moves += 1
            if old is not None and (wt or not gp or s == 1):
                new = path.get_polygons(True)
                ensure(set(new) == set(old), "tags after", name)
                for tag in old:
                    want = [f(q) for q in old[tag]]
                    big = 1 + float(numpy.abs(numpy.vstack(want + new[tag])).max())
                    # ill-conditioned corners of displaced elements
                    if not big < 10 * (1 + max(float(numpy.abs(q).max()) for q in (path.points, path.widths, path.offsets))):
                        continue
                    if sum(map(len, want + new[tag])) > 1500:
                        continue
                    if s == 1 and not (name == "transform" and a[3]):
                        ensure(len(want) == len(new[tag]), "number of polygons after", name)
                        if all(len(x) == len(y) and numpy.abs(x - y).max() <= 1e-7 * big for x, y in zip(want, new[tag])):
                            ctx.label("same vertices")
                            continue
                    if reversal(path.points):
                        ctx.label("doubles back")
                        continue
                    # other vertices through ties between corner forms or adaptive sampling
                    per = sum(oracle.perimeter(q) for q in want)
                    curved = {"round", "smooth", "circular bend"} & {corner, end if isinstance(end, str) else ""}
                    lim = per * (1e-7 * big + (4 * tol * max(s, 1) if curved else 0))
                    x = oracle.xor_area(want, new[tag])
                    ensure(x <= lim, "region after", name, args, "differs by", x, "limit", lim)
                    ctx.label(name)
        else:
            w1, o1 = targets(m, ckw, gp)
            start = m.p[-1].copy()
            w0, o0 = numpy.array(m.w[-1]), numpy.array(m.o[-1])
            r = call(path, op)
            ensure(r is path, "chaining", k)
            new = path.points[n0:]
            big = 1 + float(numpy.abs(path.points).max())
            rel = ckw.get("relative", k in ("parametric", "bezier", "smooth"))
            us = None
            if k == "segment":
                e = numpy.array(args[0], dtype=float) + (start if rel else 0)
                ensure(len(new) == 1 and numpy.abs(new[0] - e).max() <= 1e-9 * big, "segment ends at", new, "instead of", e)
                us = [1.0]
            elif k in ("arc", "turn"):
                if k == "turn":
                    v = start - m.p[-2]
                    ang = {"l": math.pi / 2, "r": -math.pi / 2, "ll": math.pi, "rr": -math.pi}.get(args[1], args[1])
                    rad = args[0]
                    a0 = math.atan2(v[1], v[0]) + (math.pi / 2 if ang < 0 else -math.pi / 2)
                    a1 = a0 + ang
                else:
                    rad, a0, a1 = args
                c = start - rad * numpy.array([math.cos(a0), math.sin(a0)])
                N = len(new)
                us = [(j + 1) / N for j in range(N)]
                for j, u in enumerate(us):
                    x = a0 + (a1 - a0) * u
                    e = c + rad * numpy.array([math.cos(x), math.sin(x)])
                    ensure(numpy.abs(new[j] - e).max() <= 1e-9 * big, k, "vertex", j, new[j], "instead of", e)
                ro = rad + max(float((numpy.abs(b) + a / 2).max()) for a, b in ((w0, o0), (w1, o1)))
                sag = ro * (1 - math.cos(min(math.pi / 2, abs(a1 - a0) / N / 2)))
                ensure(sag <= 2.3 * tol or N == 1, k, "off the arc by", sag, "with", N, "sections, tolerance", tol)
            elif k in ("parametric", "bezier", "smooth"):
                if k == "parametric":
                    f0, _ = curve(args)
                    fs = [lambda u: start + f0(u)]
                elif k == "bezier":
                    q = numpy.vstack(([start], numpy.array(args[0], dtype=float) + (start if rel else 0)))
                    fs = [strokes.bezier(q)[0]]
                else:
                    if "angles" in ckw and not numpy.isfinite(new).all():
                        # turning back on itself is a singularity of the splines
                        raise Degenerate
                    q = numpy.array(args[0], dtype=float) + (start if rel else 0)
                    through = [start] + list(q) + ([start] if ckw.get("cycle") else [])
                    j = 0
                    cuts = []
                    for t in through[1:]:
                        d = numpy.hypot(*(new[j:] - t).T)
                        hit = numpy.nonzero(d <= 1e-9 * big)[0]
                        ensure(len(hit), "smooth curve misses", t)
                        j = j + int(hit[0]) + 1
                        cuts.append(j)
                    ensure(cuts[-1] == len(new), "smooth curve ends at", new[-1], "instead of", through[-1])
                    fs = None
                if fs:
                    ensure(numpy.abs(new[-1] - fs[0](1)).max() <= 1e-9 * big, k, "ends at", new[-1], "instead of", fs[0](1))
                    if queries:
                        strokes.on_curve(new, start, fs[0], tol, k)
                    cuts = [len(new)]
                # linear in the vertex number on each piece
                j = 0
                rows_w, rows_o = [w0], [o0]
                for cut in cuts:
                    wa, oa = rows_w[-1], rows_o[-1]
                    # requests are repeated for every piece
                    wb = w1
                    ob = (oa + ckw["offset"]) if ckw.get("offset") is not None and not isinstance(ckw["offset"], list) else o1
                    for i in range(j, cut):
                        u = (i - j + 1) / (cut - j)
                        rows_w.append(wa * (1 - u) + wb * u)
                        rows_o.append(oa * (1 - u) + ob * u)
                    j = cut
                ensure(close(path.widths[n0:], rows_w[1:], 1e-9 * big), k, "widths", path.widths[n0:], "instead of", rows_w[1:])
                ensure(close(path.offsets[n0:], rows_o[1:], 1e-9 * big), k, "offsets", path.offsets[n0:], "instead of", rows_o[1:])
                m.p += list(new)
                m.w += rows_w[1:]
                m.o += rows_o[1:]
            if us is not None:
                m.p += list(new)
                m.w += [w0 * (1 - u) + w1 * u for u in us]
                m.o += [o0 * (1 - u) + o1 * u for u in us]
            draws += 1
            ctx.label(k)
        if len(path.points) > 800:
            # near a singularity of the splines
            raise Degenerate
        # everything drawn so far
        big = 1 + float(numpy.abs(path.points).max())
        ensure(close(path.points, m.p, 1e-9 * big), "points", path.points, "instead of", m.p, "after", k)
        ensure(close(path.widths, m.w, 1e-9 * big), "widths", path.widths, "instead of", m.w, "after", k)
        ensure(close(path.offsets, m.o, 1e-9 * big), "offsets", path.offsets, "instead of", m.o, "after", k)
    if "smooth" in (corner, end) and folds(m):
        raise Degenerate
    return path, draws, moves


def check(case, ctx):
    try:
        a, draws, moves = run(case, ctx, True)
        b, _, _ = run(case, ctx, False)
        pa, pb = a.get_polygons(True), b.get_polygons(True)
    except Degenerate:
        ctx.label("degenerate")
        return
    except ValueError as e:
        # displaced segments without length have no direction
        if "NaN" in str(e):
            ctx.label("degenerate")
            return
        raise
    ensure(set(pa) == set(pb), "tags with and without queries")
    for k in pa:
        ensure(len(pa[k]) == len(pb[k]) and all(numpy.array_equal(x, y, equal_nan=True) for x, y in zip(pa[k], pb[k])), "polygons depend on earlier queries", k)
    ctx.nt(draws > 1 and moves > 0)


def mirrored(case, ctx):
    path = gdspy.FlexPath([(0, 0), (10, 0)], [1, 1], [-2, 2], layer=[1, 2])
    old = path.get_polygons(True)
    path.transform(None, None, None, True)
    new = path.get_polygons(True)
    for k in old:
        x = oracle.xor_area([q * numpy.array([1, -1]) for q in old[k]], new[k])
        ensure(x < 1e-9, "element", k, "is not where the reflection puts it")


def taper(case, ctx):
    # nearly straight first, then a bend: half of the width change belongs to
    # half of the curve parameter
    f = lambda u: numpy.array([20 * u, 40 * max(0.0, u - 0.75) ** 2 * 4])
    path = gdspy.FlexPath([(0, 0)], 1).parametric(f, width=3)
    u = path.points[:, 0] / 20
    ensure(numpy.abs(path.widths[:, 0] - (1 + 2 * u)).max() < 0.1, "the width along a parametric curve is linear in the vertex number only")


w = st.one_of(st.integers(1, 3), gen.grid(100, 3000))
c = st.one_of(st.integers(-20, 20), gen.grid(-20000, 20000))
pt = st.tuples(c, c)
o = st.one_of(st.integers(-4, 4), gen.grid(-4000, 4000))
ang = st.one_of(st.sampled_from([math.pi / 2, math.pi, -math.pi / 2, 0.0]), st.integers(-628, 628).map(lambda k: k / 100))
mg = st.sampled_from([1, 2, 0.5, 0.25, 3, 1.7])


@st.composite
def ops(draw, n):
    k = draw(st.sampled_from(["segment", "move", "query", "arc", "turn", "parametric", "bezier", "smooth", "segment", "move", "query"]))
    if k == "query":
        return (k, draw(st.booleans()), {})
    if k == "move":
        name = draw(st.sampled_from(["transform", "scale", "rotate", "translate"]))
        if name == "translate":
            a = draw(pt)
        elif name == "rotate":
            a = (draw(ang),) + draw(st.sampled_from([(), (draw(pt),)]))
        elif name == "scale":
            a = (draw(mg),) + draw(st.sampled_from([(), (draw(pt),)]))
        else:
            a = (draw(st.one_of(st.none(), pt)), draw(st.one_of(st.none(), ang)), draw(st.one_of(st.none(), mg)), draw(st.booleans()), draw(st.one_of(st.none(), pt)))
        return (k, (name, a), {})
    kw = {}
    if draw(st.sampled_from([0, 0, 1])):
        kw["width"] = draw(st.one_of(w, st.lists(w, min_size=n, max_size=n)))
    if draw(st.sampled_from([0, 0, 1])):
        kw["offset"] = draw(st.one_of(gen.grid(-1500, 1500), st.lists(o, min_size=n, max_size=n)))
    if k in ("segment", "bezier", "smooth", "parametric"):
        rel = draw(st.sampled_from([None, True, False]))
        if rel is not None:
            kw["relative"] = rel
    if k == "segment":
        args = (draw(pt),)
    elif k == "arc":
        a0 = draw(ang)
        args = (draw(st.one_of(st.integers(1, 20), gen.grid(500, 20000))), a0, a0 + draw(ang.filter(lambda x: x != 0)))
    elif k == "turn":
        args = (draw(st.one_of(st.integers(1, 20), gen.grid(500, 20000))), draw(st.one_of(st.sampled_from(["l", "r", "ll", "rr"]), ang.filter(lambda x: x != 0))))
    elif k == "parametric":
        if draw(st.booleans()):
            co = draw(st.lists(pt, min_size=1, max_size=3).filter(lambda q: abs(q[0][0]) + abs(q[0][1]) > 1))
            args = ("poly", co)
        else:
            args = ("spiral", draw(st.integers(1, 12)), draw(st.integers(-600, 600).map(lambda k: k / 100).filter(lambda x: abs(x) > 0.3)), draw(st.sampled_from([0, 0.5, -0.5, 1])))
    elif k == "bezier":
        args = (draw(st.lists(pt, min_size=2, max_size=4)),)
    else:
        q = draw(st.lists(pt, min_size=1, max_size=4, unique=True).filter(lambda q: (0, 0) not in q))
        args = (q,)
        if draw(st.booleans()):
            kw["angles"] = [draw(st.one_of(st.none(), ang)) for _ in range(len(q) + 1)]
        if draw(st.booleans()) and len(q) > 1:
            kw["cycle"] = True
    return (k, args, kw)


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    points = draw(st.one_of(st.lists(pt, min_size=1, max_size=3)))
    corner = draw(st.sampled_from(["natural", "natural", "miter", "bevel", "round", "smooth", "circular bend"]))
    end = draw(st.one_of(st.sampled_from(["flush", "extended", "round", "smooth"]), st.tuples(st.integers(0, 3), st.integers(0, 3))))
    head = (
        points, draw(st.lists(w, min_size=n, max_size=n)), draw(st.one_of(st.just([0] * n), st.lists(o, min_size=n, max_size=n))), corner, end,
        draw(st.sampled_from([1, 2.5])) if corner == "circular bend" else None, draw(st.sampled_from([0.01, 0.02, 0.05, 0.1])),
        draw(st.sampled_from([False, False, True])), draw(st.sampled_from([True, True, False])), draw(st.sampled_from([1, [1, 2, 3]])),
    )
    return (head, draw(st.lists(ops(n), min_size=draw(st.sampled_from([1, 3, 5])), max_size=8)))


SUBS = [
    Sub("history", cases(), check, 2000),
    Sub("mirrored", st.just("mirrored"), mirrored, 0, 0),
    Sub("taper", st.just("taper"), taper, 0, 0),
]
