"""Paths through given points and rectilinear paths."""
import math

import gdspy
import gen
import numpy
import oracle
import strokes
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "polypath: 2 to 7 points, constant or varying width and distance, 1 to 4 elements, both corners and all ends; rectilinear: 1 to 8 "
    "sections in any direction with any turns and width factors. Non-trivial: a corner that could be judged."
)
ASSUMPTIONS = [
    "turns below 150 degrees and sections long enough that both borders of an element advance along every section",
    "bevels are checked for single paths only, as documented",
    "vertex limits from 6; round ends are not subject to it",
    "a list of widths or distances shorter than the points repeats, as layers do",
    "width factors of a rectilinear path also scale the distance between its elements",
]


def cycle(v, n):
    v = v if isinstance(v, list) else [v]
    return [v[i % len(v)] for i in range(n)]


def cross(a, b):
    return float(a[0] * b[1] - a[1] * b[0])


def meet(a, u, b, v):
    """Intersection of the lines a + s u and b + t v, with s and t."""
    c = cross(u, v)
    if abs(c) < 1e-12:
        return None
    s = cross(b - a, v) / c
    t = cross(b - a, u) / c
    return a + s * u, s, t


def compare(shape, ideal, exact, ctx, what):
    """ideal: {tag: list of polygons}; exact: allowed distance of borders."""
    got = {}
    ensure(len(shape.polygons) == len(shape.layers) == len(shape.datatypes), "tags")
    for p, a, b in zip(shape.polygons, shape.layers, shape.datatypes):
        got.setdefault((a, b), []).append(numpy.asarray(p))
    ensure(set(got) == set(ideal), what, "tags", sorted(got), sorted(ideal))
    for k in ideal:
        x = oracle.xor_area(ideal[k], got[k])
        lim = (1e-8 + exact) * sum(oracle.perimeter(q) for q in ideal[k])
        ensure(x <= lim, what, "elements", k, "differ by area", x, "limit", lim)


def polypath(case, ctx):
    pts, wid, n, dist, corners, ends, maxp, layer, datatype, noise = case
    P = numpy.array(pts, dtype=float)
    N = len(P)
    W = [w / 2 for w in wid] if isinstance(wid, list) else [wid / 2] * N
    W = [W[j % len(W)] for j in range(N)]
    D = [dist[j % len(dist)] for j in range(N)] if isinstance(dist, list) else [dist] * N
    if corners == "bevel" and n > 1:
        n = 1
    if W[0] == 0 and W[1] == 0 or W[-1] == 0 and W[-2] == 0:
        return
    if any(W[j] == 0 and W[j + 1] == 0 for j in range(N - 1)):
        return
    kw = {}
    if n != 1:
        kw["number_of_paths"] = n
    if isinstance(dist, list) or dist:
        kw["distance"] = dist
    if corners != "miter":
        kw["corners"] = corners
    if ends != "flush":
        kw["ends"] = ends
    if maxp != 199:
        kw["max_points"] = maxp
    tags = list(zip(cycle(layer, n), cycle(datatype, n)))
    given = P.copy() if noise else [tuple(p) for p in pts]
    wgiven = numpy.array(wid, dtype=float) if isinstance(wid, list) and noise else wid
    shape = gdspy.PolyPath(given, wgiven, layer=layer, datatype=datatype, **kw)
    if noise:
        ensure((given == P).all(), "points given were changed")
    d = P[1:] - P[:-1]
    ln = numpy.hypot(d[:, 0], d[:, 1])
    u = d / ln[:, None]
    if any(float(u[j] @ u[j + 1]) < -0.87 for j in range(N - 2)):
        ctx.label("too sharp")
        return
    if maxp and ends != "round":
        ensure(all(len(p) <= maxp for p in shape.polygons), "vertices", [len(p) for p in shape.polygons], "limit", maxp)
    A = P.copy()
    if ends == "extended":
        A[0] = P[0] - u[0] * W[0]
        A[-1] = P[-1] + u[-1] * W[-1]
    left = numpy.column_stack([-u[:, 1], u[:, 0]])
    ideal = {}
    exact = 0.0
    judged = True
    for i in range(n):
        out = []
        o = [(i - (n - 1) / 2) * x for x in D]
        borders = []
        for side in (-1, 1):
            # border lines of each segment
            s = [A[j] + left[j] * (o[j] + side * W[j]) for j in range(N - 1)]
            e = [A[j + 1] + left[j] * (o[j + 1] + side * W[j + 1]) for j in range(N - 1)]
            starts, finishes = [s[0]], []
            for j in range(N - 2):
                m = meet(s[j], e[j] - s[j], s[j + 1], e[j + 1] - s[j + 1])
                if m is None:
                    judged &= bool(numpy.abs(e[j] - s[j + 1]).max() < 1e-9)
                    finishes.append(e[j])
                    starts.append(s[j + 1])
                    continue
                q, a, b = m
                if abs(a - 1) * ln[j] > 40 * (W[j + 1] + abs(o[j + 1])) + 1e-9:
                    judged = False
                if corners == "bevel" and a > 1 and b < 0:
                    finishes.append(e[j])
                    starts.append(s[j + 1])
                else:
                    finishes.append(q)
                    starts.append(q)
            finishes.append(e[-1])
            borders.append((starts, finishes))
        (sr, er), (sl, el) = borders
        for j in range(N - 1):
            for a, b in ((sr[j], er[j]), (sl[j], el[j])):
                if float((b - a) @ u[j]) < 1e-3 * ln[j]:
                    judged = False
            out.append(numpy.array([sr[j], er[j], el[j], sl[j]]))
            for r, l in ((sr[j], sl[j]), (er[j], el[j])):
                if float((l - r) @ left[j]) < -1e-9:
                    judged = False
            if j < N - 2:
                out.append(numpy.array([er[j], sr[j + 1], sl[j + 1], el[j]]))
        if ends == "round":
            for c, w, t in ((P[0] + left[0] * o[0], W[0], -u[0]), (P[-1] + left[-1] * o[-1], W[-1], u[-1])):
                a = math.atan2(t[1], t[0])
                out.append(numpy.array([c + w * numpy.array([math.cos(a + b * math.pi / 120), math.sin(a + b * math.pi / 120)]) for b in range(-60, 61)]))
                exact = max(exact, w * (1 - math.cos(math.pi / 62)))
        ideal.setdefault(tags[i], []).extend(out)
    if not judged:
        ctx.label("borders fold back")
        return
    compare(shape, ideal, exact, ctx, corners + " " + ends)
    ctx.nt(N > 2)
    ctx.label(corners, ends, "many" if n > 1 else "one", "tapered" if len(set(W)) > 1 else "constant", *(["fractured"] if len(shape.polygons) > 3 * n else []))


def rectilinear(case, ctx):
    point, direction, width, extra, turns, n, dist, maxp, layer, datatype, spin = case
    m = len(extra)
    turns = turns[: m - 1]
    fac = [1] + [abs(t) for t in turns]
    reach = [((n - 1) / 2 * dist + width / 2) * f for f in fac]
    length = [extra[k] + (reach[k - 1] if k else 0) + (reach[k + 1] if k < m - 1 else 0) for k in range(m)]
    kw = {}
    if (n, dist) != (1, 0):
        kw.update(number_of_paths=n, distance=dist)
    if maxp != 199:
        kw["max_points"] = maxp
    shape = gdspy.L1Path(point, direction, width, length, turns, layer=layer, datatype=datatype, **kw)
    if maxp:
        ensure(all(len(p) <= maxp for p in shape.polygons), "vertices", [len(p) for p in shape.polygons], "limit", maxp)
    a = int(round(strokes.NAMED[direction] / (math.pi / 2))) % 4
    E = [(1, 0), (0, 1), (-1, 0), (0, -1)]
    tags = list(zip(cycle(layer, n), cycle(datatype, n)))
    corners = [tuple(point)]
    dirs = []
    for k in range(m):
        dirs.append(a)
        e = E[a]
        corners.append((corners[-1][0] + length[k] * e[0], corners[-1][1] + length[k] * e[1]))
        if k < m - 1:
            a = (a + (1 if turns[k] > 0 else 3)) % 4
    ideal = {}
    for i in range(n):
        for k in range(m):
            e = numpy.array(E[dirs[k]], dtype=float)
            lt = numpy.array([-e[1], e[0]])
            off = (i - (n - 1) / 2) * dist * fac[k]
            h = width / 2 * fac[k]
            # the section reaches into the bands of its neighbours
            s0, s1 = 0.0, float(length[k])
            for q, sign in ((k - 1, -1), (k + 1, 1)):
                if 0 <= q < m:
                    f = numpy.array(E[dirs[q]], dtype=float)
                    lat = float(numpy.array([-f[1], f[0]]) @ e) * (i - (n - 1) / 2) * dist * fac[q]
                    if sign < 0:
                        s0 = lat - width / 2 * fac[q]
                    else:
                        s1 = length[k] + lat + width / 2 * fac[q]
            c = numpy.array(corners[k], dtype=float)
            ideal.setdefault(tags[i], []).append(numpy.array([c + e * s + lt * (off + b * h) for s, b in ((s0, -1), (s1, -1), (s1, 1), (s0, 1))]))
    compare(shape, ideal, 0, ctx, "rectilinear")
    scale = 1 + max(abs(v) for q in corners for v in q)
    ensure(numpy.abs(numpy.array(corners[-1]) - (shape.x, shape.y)).max() <= 1e-9 * scale, "end point", (shape.x, shape.y), "instead of", corners[-1])
    ensure(shape.direction == ["+x", "+y", "-x", "-y"][a], "direction", shape.direction)
    if spin:
        ang, centre = spin
        old = [numpy.array(p) for p in shape.polygons]
        ensure(shape.rotate(ang, centre) is shape, "chaining")
        for p, q in zip(old, shape.polygons):
            ensure(oracle.close(oracle.rot(p, ang, centre), q, 1e-9 * (scale + 20)), "rotated polygons")
        e = oracle.rot([corners[-1]], ang, centre)[0]
        ensure(numpy.abs(e - (shape.x, shape.y)).max() <= 1e-9 * (scale + 20), "rotated end point")
        ensure(strokes.angle_error(shape.direction, a * math.pi / 2 + ang) < 1e-9, "rotated direction")
    ctx.nt(m > 1)
    ctx.label("factors" if set(fac) != {1} else "constant", "many" if n > 1 else "one")


c = st.one_of(st.integers(-30, 30), st.integers(-12, 12).map(lambda k: 4 * k), gen.grid(-30000, 30000))
pts = gen.polyline(c, 2, 7).filter(lambda p: all(math.hypot(a[0] - b[0], a[1] - b[1]) > 0.01 for a, b in zip(p, p[1:])))


@st.composite
def walks(draw):
    """Points with turns below 140 degrees."""
    a = draw(st.integers(0, 359)) if draw(st.booleans()) else 90 * draw(st.integers(0, 3))
    p = [(draw(c), draw(c))]
    for _ in range(draw(st.integers(1, 6))):
        r = draw(st.integers(2, 40))
        x, y = p[-1]
        p.append((round(x + r * math.cos(math.radians(a)), 3), round(y + r * math.sin(math.radians(a)), 3)))
        a += draw(st.one_of(st.sampled_from([0, 90, -90, 45, 60]), st.integers(-138, 138)))
    return p


points = st.one_of(pts, walks(), walks())
w = st.one_of(st.integers(1, 3), gen.grid(50, 3000))
w0 = st.one_of(w, w, w, st.just(0))
d = st.one_of(st.integers(0, 6), gen.grid(0, 6000))
tag = st.one_of(st.integers(0, 9), st.lists(st.integers(0, 9), min_size=1, max_size=5), st.just([1, 2, 3, 4]))
num = st.sampled_from([1, 1, 2, 3, 4])
maxp = st.sampled_from([199, 199, 0, 6, 8, 9, 12])


@st.composite
def polypaths(draw):
    p = draw(points)
    full = len(p)
    few = st.integers(1, full)
    wid = draw(st.one_of(w, st.lists(w0, min_size=full, max_size=full), few.flatmap(lambda k: st.lists(w, min_size=k, max_size=k))))
    n = draw(num)
    dist = draw(st.one_of(d, st.lists(d, min_size=full, max_size=full), few.flatmap(lambda k: st.lists(d, min_size=k, max_size=k)))) if n > 1 else 0
    return (p, wid, n, dist, draw(st.sampled_from(["miter", "miter", "bevel"])), draw(st.sampled_from(["flush", "extended", "round"])),
            draw(maxp), draw(tag), draw(tag), draw(st.booleans()))


turn = st.one_of(st.sampled_from([1, -1]), st.sampled_from([1, -1, 2, -2, 0.5, -0.5, 3]))
ang = st.one_of(st.sampled_from([math.pi / 2, math.pi, 1]), st.integers(-700, 700).map(lambda k: k / 100))
rects = st.tuples(
    st.tuples(c, c), st.sampled_from(["+x", "-x", "+y", "-y"]), w, st.lists(st.one_of(st.integers(1, 12), gen.grid(100, 9000)), min_size=1, max_size=8),
    st.lists(turn, min_size=7, max_size=7), num, d, st.sampled_from([199, 199, 0, 6, 8, 10]), tag, tag, st.one_of(st.none(), st.tuples(ang, st.tuples(c, c))),
)

SUBS = [
    Sub("polypath", polypaths(), polypath, 5000),
    Sub("rectilinear", rects, rectilinear, 2400),
]
