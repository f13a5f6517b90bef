"""Fracturing."""
import math

import gdspy
import numpy
import oracle
import regions as R
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Polygon sets mixing random polygons (stars and combs with up to 200 vertices, keyhole rings, self-intersecting and degenerate "
    "lists) on several layers, fractured with limits from 0 to 199. Non-trivial: at least one polygon had to be divided."
)
ASSUMPTIONS = [
    "tolerance: two precision steps times the edge lengths",
    "self-intersecting polygons: regions by the non-zero rule, multiplicity not judged",
]


@st.composite
def star(draw):
    n = draw(st.one_of(st.integers(5, 40), st.integers(5, 200)))
    k = draw(st.integers(1, 6))
    rs = draw(st.lists(st.integers(2, 30), min_size=k, max_size=k))
    s = draw(st.sampled_from([1, 0.1, 7]))
    c = draw(st.tuples(st.integers(-20, 20), st.integers(-20, 20)))
    return [(round(c[0] + s * rs[i % k] * math.cos(2 * math.pi * i / n), 4), round(c[1] + s * rs[i % k] * math.sin(2 * math.pi * i / n), 4)) for i in range(n)]


@st.composite
def comb(draw):
    n = draw(st.integers(1, 40))
    w, h, b = draw(st.integers(1, 4)), draw(st.integers(1, 40)), draw(st.integers(1, 4))
    x, y = draw(st.tuples(st.integers(-20, 20), st.integers(-20, 20)))
    top = []
    for i in range(n):
        top += [(2 * i * w, b), (2 * i * w, b + h), ((2 * i + 1) * w, b + h), ((2 * i + 1) * w, b)]
    p = [(0, 0)] + [((2 * n - 1) * w, 0)] + top[::-1]
    p = [(x + u, y + v) for u, v in p]
    if draw(st.booleans()):
        p = [(v, u) for u, v in p]
    return p


@st.composite
def steps(draw):
    """Monotone staircase: vertices that share coordinates."""
    n = draw(st.integers(2, 30))
    ds = draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2)), min_size=n, max_size=n))
    p = [(0, 0)]
    for dx, dy in ds:
        p += [(p[-1][0] + dx, p[-1][1]), (p[-1][0] + dx, p[-1][1] + dy)]
    return p + [(p[-1][0], -1), (0, -1)]


poly = st.one_of(star(), comb(), steps(), R.simple, R.ring(), R.free, st.lists(st.tuples(R.half, R.half), min_size=5, max_size=14))
limit = st.one_of(st.integers(5, 12), st.integers(5, 60), st.sampled_from([199, 0, 4, 5]))


def simple(p):
    return oracle.measure([[p]], lambda w: (w[..., 0] < 0) | (w[..., 0] > 1)) <= 1e-12


def check(case, ctx):
    specs, maxp, prec = case
    s = gdspy.PolygonSet([p for p, _, _ in specs])
    s.layers = [a for _, a, _ in specs]
    s.datatypes = [b for _, _, b in specs]
    s.properties = {1: "x"}
    if (maxp, prec) == (199, 1e-3):
        out = s.fracture()
    elif prec == 1e-3:
        out = s.fracture(maxp)
    else:
        out = s.fracture(max_points=maxp, precision=prec)
    ensure(out is s, "returns the object")
    ensure(s.properties == {1: "x"}, "properties")
    ensure(len(s.polygons) == len(s.layers) == len(s.datatypes), "tags", len(s.polygons), len(s.layers), len(s.datatypes))
    if maxp > 4:
        ensure(all(len(p) <= maxp for p in s.polygons), "vertices", [len(p) for p in s.polygons], "limit", maxp)
    big = [t for t in specs if maxp > 4 and len(t[0]) > maxp]
    small = [t for t in specs if not (maxp > 4 and len(t[0]) > maxp)]
    got = list(zip(s.polygons, s.layers, s.datatypes))
    for t, g in zip(small, got):
        ensure(g[0].shape == (len(t[0]), 2) and (g[0] == numpy.array(t[0], dtype=float)).all() and g[1:] == t[1:], "polygon within the limit changed", t, g)
    pieces = got[len(small):]
    ensure(len(got) >= len(small), "polygons lost")
    for tag in {t[1:] for t in big} | {g[1:] for g in pieces}:
        src = [t[0] for t in big if t[1:] == tag]
        res = [g[0] for g in pieces if g[1:] == tag]
        a = R.on_grid(src, prec)
        lim = 2 * prec * (R.length(a) + R.length(res)) + 16 * prec ** 2
        d = oracle.measure([[p] for p in a] + [res], lambda w: (w[..., :-1] != 0).any(axis=-1) != (w[..., -1] != 0))
        ensure(d <= lim, "layer and datatype", tag, "differ on area", d, "limit", lim)
        if all(simple(p) for p in a):
            A, B = sum(map(oracle.area, a)), sum(map(oracle.area, res))
            ensure(abs(A - B) <= lim, "total area", A, B, "limit", lim)
            if len(a) == 1:
                o = R.overlap(res)
                ensure(o <= lim, "pieces overlap", o)
    ctx.nt(bool(big))
    ctx.label("limit %s" % (maxp if maxp < 6 else ">5"), "%s divided" % min(3, len(big)))


SUBS = [
    Sub("fracture", st.tuples(st.lists(st.tuples(poly, st.integers(0, 2), st.integers(0, 2)), min_size=1, max_size=4), limit, R.precision), check, 2400),
]
