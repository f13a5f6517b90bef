"""Offsetting."""
import math
import random

import gdspy
import numpy
import oracle
import regions as R
from core import Rare, Sub, ensure
from hypothesis import strategies as st

RULE = (
    "single: simple polygons, either sign of the distance; many: overlapping polygons grown together; joined: unions of squares of "
    "a grid, with holes, grown or shrunk after joining. All joins and tolerances. Non-trivial: the distance is not zero and the result "
    "is not empty."
)
ASSUMPTIONS = [
    "ideal region: the polygon with a band along every edge and a corner piece (sector, mitre, or cut perpendicular to the "
    "bisector) at every vertex convex to the side of the offset, built independently",
    "round joins may be as coarse as 1.5 of the requested chord; mitres within 1e-3 of the limit may be cut or not",
    "a negative distance without joining first is checked for single polygons only",
    "unions of squares with coincident edges are left in parts by Clipper now and then (known finding): a failure (three per worker, then one "
    "per 100 cases) is not reported if it holds for four inputs with every square grown a little",
    "an isolated failure (two per worker, then one per 1000 cases) is not reported if it holds for four inputs with every vertex moved (see B01)",
]


def ccw(p):
    p = oracle.arr(p)
    return p if oracle.signed_area(p) >= 0 else p[::-1]


def pieces(p, d, join, tol):
    """(bands, lower corner pieces, upper corner pieces) on the side of d."""
    p = ccw(p)
    p = p[[i for i in range(len(p)) if tuple(p[i]) != tuple(p[i - 1])]]
    r = abs(d)
    s = 1 if d > 0 else -1
    n = len(p)
    bands, low, up = [], [], []
    if n < 3:
        return bands, low, up
    e = numpy.roll(p, -1, axis=0) - p
    e = e / numpy.hypot(e[:, 0], e[:, 1])[:, None]
    normal = s * numpy.column_stack([e[:, 1], -e[:, 0]])
    for i in range(n):
        a, b = p[i], p[(i + 1) % n]
        bands.append(numpy.array([a, b, b + r * normal[i], a + r * normal[i]]))
        k, j = normal[i - 1], normal[i]
        turn = s * (e[i - 1][0] * e[i][1] - e[i - 1][1] * e[i][0])
        cos = float(k @ j)
        if turn <= 1e-9 and cos > -1 + 1e-9:
            continue
        ang = math.atan2(abs(turn), cos)
        t0 = math.atan2(k[1], k[0])
        sg = s

        def fan(rad, m):
            ts = [t0 + sg * ang * q / m for q in range(m + 1)]
            return numpy.array([a] + [a + rad * numpy.array([math.cos(t), math.sin(t)]) for t in ts])

        def cut():
            h = r * math.tan(ang / 4)
            return numpy.array([a, a + r * k, a + r * k + h * e[i - 1], a + r * j - h * e[i], a + r * j])

        def mitre():
            return numpy.array([a, a + r * k, a + r * (k + j) / (1 + cos), a + r * j])

        chord = numpy.array([a, a + r * k, a + r * j])
        if join == "round":
            phi = min(ang, 1.5 * 2 * math.pi / tol)
            low += [chord, fan(r * math.cos(phi / 2), max(4, int(ang / 0.03)))]
            up.append(fan(r / math.cos(0.015), max(4, int(ang / 0.03) + 1)))
        elif join == "bevel":
            low.append(cut())
            up.append(cut())
        else:
            lim = 2 / max(tol, 2) ** 2
            if 1 + cos > lim - 1e-3:
                up.append(mitre())
            else:
                up.append(cut())
            if 1 + cos > lim + 1e-3:
                low.append(mitre())
            else:
                low.append(cut())
    return bands, low, up


def run(polys, d, join, tol, prec, jf, maxp, ly, dt):
    kw = dict(layer=ly, datatype=dt)
    if tol != 2:
        kw["tolerance"] = tol
    if join != "miter":
        kw["join"] = join
    if prec != 1e-3:
        kw["precision"] = prec
    if jf:
        kw["join_first"] = True
    if maxp != 199:
        kw["max_points"] = maxp
    out = gdspy.offset(polys, d, **kw)
    if out is None:
        return []
    n = len(out.polygons)
    ensure(len(out.layers) == len(out.datatypes) == n, "tags")
    ensure(all(x == ly for x in out.layers) and all(x == dt for x in out.datatypes), "layer or datatype")
    if maxp > 4:
        ensure(all(len(p) <= maxp for p in out.polygons), "vertices", [len(p) for p in out.polygons])
    return [numpy.asarray(p) for p in out.polygons]


def bounds(low, up, res, prec, what, extra=0.0):
    """low <= res <= up; low and up as (added polygons, removed polygons)."""
    used = [R.length(q) for q in low + up]
    lim = 3 * prec * (sum(used) / 2 + R.length(res)) + 16 * prec ** 2 + extra
    a = oracle.measure([low[0], low[1], res], lambda w: (w[..., 0] != 0) & (w[..., 1] == 0) & (w[..., 2] == 0))
    ensure(a <= lim, what, "misses area", a, "limit", lim, [p.tolist() for p in res][:3])
    b = oracle.measure([up[0], up[1], res], lambda w: ~((w[..., 0] != 0) & (w[..., 1] == 0)) & (w[..., 2] != 0))
    ensure(b <= lim, what, "exceeds by area", b, "limit", lim, [p.tolist() for p in res][:3])
    o = R.overlap(res)
    ensure(o <= lim, what, "pieces overlap", o)


def single(case, ctx):
    polys, d, join, tol, prec, jf, maxp, ly, dt = case
    res = run(polys, d, join, tol, prec, jf, maxp, ly, dt)
    g = R.on_grid(polys, prec)
    if d == 0:
        bounds((g, []), (g, []), res, prec, "zero distance")
        return
    B, L, U = [], [], []
    for p in g:
        b, l, u = pieces(p, d, join, tol)
        B, L, U = B + b, L + l, U + u
    if d > 0:
        bounds((g + B + L, []), (g + B + U, []), res, prec, "growth")
    else:
        bounds((g, B + U), (g, B + L), res, prec, "shrinking")
    if join == "round" and maxp != 8 and len(polys) == 1:
        # no finer than asked for
        p = ccw(polys[0])
        e = numpy.roll(p, -1, axis=0) - p
        t = numpy.arctan2(e[:, 1], e[:, 0])
        t = numpy.abs((numpy.roll(t, 1) - t + math.pi) % (2 * math.pi) - math.pi)
        most = float(t.sum()) / (2 * math.pi) * tol * 1.2 + 4 * len(p) + len(p) ** 2 + 4 * len(res)
        ensure(sum(map(len, res)) <= most, "round joins with", sum(map(len, res)), "vertices, expected at most", most)
    ctx.nt(len(res) > 0)
    ctx.label(join, "grow" if d > 0 else "shrink", "empty" if not res else "result")


def joined(case, ctx):
    cells, d, join, tol, prec, form = case
    polys = [[(x, y), (x + w, y), (x + w, y + h), (x, y + h)] for x, y, w, h in cells]
    r = abs(d)
    # grid of all edges, framed
    xs = sorted({v for x, y, w, h in cells for v in (x, x + w)})
    ys = sorted({v for x, y, w, h in cells for v in (y, y + h)})
    xs = [xs[0] - r - 1] + xs + [xs[-1] + r + 1]
    ys = [ys[0] - r - 1] + ys + [ys[-1] + r + 1]
    every = {(i, j) for i in range(len(xs) - 1) for j in range(len(ys) - 1)}
    full = {(i, j) for i, j in every if any(x <= xs[i] < x + w and y <= ys[j] < y + h for x, y, w, h in cells)}
    empty = every - full
    res = run(gdspy.PolygonSet(polys) if form else polys, d, join, tol, prec, True, 199, 1, 2)
    rect = lambda q, k=0.0: numpy.array([(q[0] - k, q[1] - k), (q[2] + k, q[1] - k), (q[2] + k, q[3] + k), (q[0] - k, q[3] + k)])

    def rounded(q, f=1.0, m=6):
        """The rectangle and everything within f*r of it (m chords a corner)."""
        out = []
        for k, c in enumerate([(q[2], q[3]), (q[0], q[3]), (q[0], q[1]), (q[2], q[1])]):
            out += [(c[0] + f * r * math.cos(t), c[1] + f * r * math.sin(t)) for t in ((k + i / m) * math.pi / 2 for i in range(m + 1))]
        return numpy.array(out)

    # maximal runs of cells along x, and along y
    def runs(s):
        out = []
        for i, j in s:
            if (i - 1, j) not in s:
                k = i
                while (k + 1, j) in s:
                    k += 1
                out.append((xs[i], ys[j], xs[k + 1], ys[j + 1]))
            if (i, j - 1) not in s:
                k = j
                while (i, k + 1) in s:
                    k += 1
                out.append((xs[i], ys[j], xs[i + 1], ys[k + 1]))
        return out

    src = runs(full if d > 0 else empty)
    P = [rect(q) for q in runs(full)]
    square = [rect(q, r) for q in src]
    # the cut corner of a square: extends every edge by r*tan(pi/8)
    h = r * math.tan(math.pi / 8)
    octagon = [numpy.array([(q[0] - r, q[1] - h), (q[0] - h, q[1] - r), (q[2] + h, q[1] - r), (q[2] + r, q[1] - h),
                            (q[2] + r, q[3] + h), (q[2] + h, q[3] + r), (q[0] - h, q[3] + r), (q[0] - r, q[3] + h)]) for q in src]
    if join == "round":
        phi = min(math.pi / 2, 1.5 * 2 * math.pi / tol)
        low = [rounded(q, math.cos(phi / 2)) for q in src] + [rounded(q, 1, 1) for q in src]
        up = [rounded(q, 1 / math.cos(math.pi / 24)) for q in src]
    else:
        low = up = square if join == "miter" else octagon
    # the summed perimeters of many pieces would make the tolerance too wide
    lens = R.length(polys) + 8 * r * len(cells)
    lim = 3 * prec * (lens + R.length(res))
    if d > 0:
        a = oracle.measure([P + low, res], lambda w: (w[..., 0] != 0) & (w[..., 1] == 0))
        b = oracle.measure([P + up, res], lambda w: (w[..., 0] == 0) & (w[..., 1] != 0))
    else:
        a = oracle.measure([P, up, res], lambda w: (w[..., 0] != 0) & (w[..., 1] == 0) & (w[..., 2] == 0))
        b = oracle.measure([P, low, res], lambda w: ~((w[..., 0] != 0) & (w[..., 1] == 0)) & (w[..., 2] != 0))
    ensure(a <= lim, "joined", join, "misses area", a, "limit", lim, [p.tolist() for p in res][:3])
    ensure(b <= lim, "joined", join, "exceeds by area", b, "limit", lim, [p.tolist() for p in res][:3])
    ctx.nt(len(res) > 0)
    ctx.label(join, "grow" if d > 0 else "shrink", "empty" if not res else "result")


def check(case, ctx, rare=Rare()):
    rare(single, case, ctx, lambda c: R.jittered(c, 1, 1e-2))


def check_joined(case, ctx, rare=Rare(3, 100)):
    def near(c):
        g = random.Random(repr(c))
        for k in range(4):
            u = [tuple(g.randint(20, 100) / 1000 for _ in range(4)) for _ in c[0]]
            yield ([(x - a, y - b, w + a + p, h + b + q) for (x, y, w, h), (a, b, p, q) in zip(c[0], u)],) + tuple(c[1:])

    rare(joined, case, ctx, near)


dist = st.one_of(st.integers(-40, 40).map(lambda k: k / 8), st.integers(-5000, 5000).filter(lambda k: abs(k) > 30).map(lambda k: k / 1000), st.sampled_from([1, -1, 0.5, -0.5, -0.25, 12, 0]))
joins = st.one_of(
    st.tuples(st.just("miter"), st.sampled_from([2, 2, 3, 5, 10, 2.5, 1])), st.tuples(st.just("bevel"), st.sampled_from([2, 5])),
    st.tuples(st.just("round"), st.sampled_from([2, 8, 16, 64, 5, 3, 100])),
)
prec = st.sampled_from([1e-3, 1e-3, 1e-4, 1e-5, 0.5 ** 11])
tags = st.integers(0, 255)
rest = st.tuples(st.sampled_from([199, 199, 0, 8]), tags, tags)
one = st.one_of(R.simple, R.cellsq, R.free.map(R.simplified).filter(lambda p: not R.tangled(p) and oracle.area(p) > 0.05))
cells = st.lists(st.tuples(st.integers(-4, 4), st.integers(-4, 4), st.integers(1, 4), st.integers(1, 4)), min_size=1, max_size=7)
apart = cells.map(lambda c: [(x + k / 8, y + k / 8, w, h) for k, (x, y, w, h) in enumerate(c)])


def flat(t):
    return (t[0], t[1]) + t[2] + (t[3], t[4]) + t[5]


SUBS = [
    Sub("single", st.tuples(one.map(lambda p: [p]), dist, joins, prec, st.booleans(), rest).map(flat), check, 2400),
    Sub("many", st.tuples(st.lists(one, min_size=2, max_size=4), dist.filter(bool).map(abs), joins, prec, st.just(False), rest).map(flat), check, 1200),
    Sub("joined", st.tuples(st.one_of(cells, apart), dist.filter(bool), joins, prec, st.booleans()).map(lambda t: (t[0], t[1]) + t[2] + t[3:]), check_joined, 800),
]
