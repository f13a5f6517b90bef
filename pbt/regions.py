"""Strategies and oracles shared by the polygon-operation properties."""
import math
import random

import numpy
from hypothesis import strategies as st

import gen
import oracle

OPS = {
    "or": lambda a, b: a | b,
    "and": lambda a, b: a & b,
    "xor": lambda a, b: a ^ b,
    "not": lambda a, b: a & ~b,
}

small = st.integers(-12, 12)
half = st.integers(-24, 24).map(lambda k: k / 2)
odd = st.integers(-12000, 12000).map(lambda k: k / 1000)
free = st.one_of(
    gen.free_polygon(small, 6), gen.free_polygon(half, 8), gen.free_polygon(odd, 6),
    # few distinct coordinates: coincident and touching edges
    gen.free_polygon(st.integers(0, 3), 6),
)
simple = gen.simple_polygon


@st.composite
def ring(draw):
    """A frame drawn as a keyhole polygon."""
    x, y = draw(st.tuples(st.integers(-8, 8), st.integers(-8, 8)))
    a, t = draw(st.integers(4, 12)), draw(st.integers(1, 2))
    b = a - t
    p = [(0, 0), (a, 0), (a, a), (0, a), (0, t), (t, t), (t, b), (b, b), (b, t), (0, t)]
    return [(x + u, y + v) for u, v in p]


def untangle(p):
    """The polygon itself if its winding has one sign; otherwise its vertices
    sorted around their mean.  A lobe of opposite sign cancels whatever it
    overlaps in the other polygons of an operand, so such polygons only come
    alone in theirs."""
    return p if not mixed(p) else simplified(p)


def mixed(p):
    """The winding number has both signs."""
    return oracle.measure([[p]], lambda w: w[..., 0] < 0) > 1e-12


def tangled(p):
    """Not a simple polygon (crossing, touching or repeated vertices)."""
    return oracle.measure([[p]], lambda w: (w[..., 0] < 0) | (w[..., 0] > 1)) > 1e-12 or len(set(map(tuple, p))) < len(p)


def slanted(p):
    return any(p[i - 1][0] != p[i][0] and p[i - 1][1] != p[i][1] for i in range(len(p)))


def box(p):
    x, y = zip(*p)
    return [(min(x), min(y)), (max(x), min(y)), (max(x), max(y)), (min(x), max(y))]


def simplified(p):
    """A simple polygon with the same vertices."""
    cx = sum(q[0] for q in p) / len(p)
    cy = sum(q[1] for q in p) / len(p)
    return sorted(p, key=lambda q: (math.atan2(q[1] - cy, q[0] - cx), q))


rect_small = gen.rect_polygon(4)
# squares of a common grid: many coincident edges and corners
cellsq = st.tuples(st.integers(-3, 3), st.integers(-3, 3), st.integers(1, 2), st.integers(1, 2)).map(
    lambda t: [(2 * t[0], 2 * t[1]), (2 * t[0] + 2 * t[2], 2 * t[1]), (2 * t[0] + 2 * t[2], 2 * t[1] + 2 * t[3]), (2 * t[0], 2 * t[1] + 2 * t[3])]
)
poly = st.one_of(simple, simple, ring(), cellsq, rect_small, free.map(untangle))
alone = free.map(lambda p: [p])
polys = st.one_of(st.lists(poly, max_size=4), st.lists(poly, max_size=4), alone)
polys1 = st.one_of(st.lists(poly, min_size=1, max_size=4), st.lists(poly, min_size=1, max_size=4), alone)
simples = st.lists(st.one_of(simple, cellsq, rect_small), min_size=1, max_size=4)

DEFAULT_PRECISION = 1e-3
precision = st.sampled_from([1e-3, 1e-3, 1e-3, 1e-2, 1e-4, 1e-6, 0.5 ** 10, 0.1])


def on_grid(ps, precision):
    """The polygons as rounded by the operation."""
    s = 1 / precision
    out = []
    for p in ps:
        q = oracle.arr(p) * s
        out.append(numpy.where(q < 0, numpy.ceil(q - 0.5), numpy.floor(q + 0.5)) / s)
    return out


def expected_area(a, b, op):
    return oracle.measure([a, b], lambda w: OPS[op](w[..., 0] != 0, w[..., 1] != 0))


def difference(a, b, op, result):
    """Area where the result disagrees with op(a, b)."""
    return oracle.measure(
        [a, b, result], lambda w: OPS[op](w[..., 0] != 0, w[..., 1] != 0) != (w[..., 2] != 0)
    )


def length(*sets):
    return sum(oracle.total_perimeter(s) for s in sets)


def overlap(ps):
    """Area covered more than once by the polygons of a result."""
    if len(ps) < 2:
        return 0.0
    return oracle.overlap_area(ps)


def jittered(case, lists=2, step=1e-2, n=4):
    """The case with the vertices of its polygon lists moved a little."""
    r = random.Random(repr(case))
    for _ in range(n):
        out = list(case)
        for k in range(lists):
            out[k] = [[(x + r.choice([-1, 1]) * r.uniform(0.3, 1) * step, y + r.choice([-1, 1]) * r.uniform(0.3, 1) * step) for x, y in p] for p in case[k]]
        yield tuple(out)
