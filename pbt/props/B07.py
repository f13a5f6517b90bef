"""Filleting."""
import math

import gdspy
import gen
import numpy
import oracle
import regions as R
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Polygon sets of simple polygons (with straight and repeated vertices) filleted with a common radius, radii per polygon or per "
    "vertex, any number of points and vertex limits. Non-trivial: some corner is rounded with a radius limited by an edge or as given."
)
ASSUMPTIONS = ["corners are limited to 0.49 of the shorter adjacent edge", "the region may differ by the area between arcs and chords"]


def arcs(p, rs):
    """For every corner: (vertex, centre, radius, tangent points, angle) or None."""
    out = []
    n = len(p)
    for i in range(n):
        a, v, b = p[i - 1], p[i], p[(i + 1) % n]
        u, w = a - v, b - v
        lu, lw = math.hypot(*u), math.hypot(*w)
        u, w = u / lu, w / lw
        turn = math.atan2(abs(u[0] * w[1] - u[1] * w[0]), -float(u @ w))  # 0: straight
        if turn < 1e-6:
            out.append((v, None, 0, None, 0))
            continue
        t = math.tan(turn / 2)
        r = min(rs[i], 0.49 * min(lu, lw) / t)
        c = v + (u + w) / math.hypot(*(u + w)) * (r / math.cos(turn / 2))
        out.append((v, c, r, (v + u * r * t, v + w * r * t), turn))
    return out


def ideal(p, rs, m=0.02):
    out = []
    for v, c, r, t, turn in arcs(p, rs):
        if c is None or r == 0:
            out.append(v)
            continue
        a0 = math.atan2(*(t[0] - c)[::-1])
        a1 = math.atan2(*(t[1] - c)[::-1])
        d = (a1 - a0 + math.pi) % (2 * math.pi) - math.pi
        k = max(2, int(abs(d) / m))
        out += [c + r * numpy.array([math.cos(a0 + d * j / k), math.sin(a0 + d * j / k)]) for j in range(k + 1)]
    return numpy.array(out)


def dedup(p, rs):
    keep = [i for i in range(len(p)) if tuple(p[i]) != tuple(p[i - 1])]
    return numpy.array([p[i] for i in keep], dtype=float), [rs[i] for i in keep]


def check(case, ctx):
    specs, form, radii, ppp, maxp, prec = case
    s = gdspy.PolygonSet([p for p, _, _ in specs])
    s.layers = [a for _, a, _ in specs]
    s.datatypes = [b for _, _, b in specs]
    polys = [p for p, _, _ in specs]
    it = iter(radii * 200)
    if form == "one":
        arg = next(it)
        per = [[arg] * len(p) for p in polys]
    elif form == "poly":
        arg = [next(it) for _ in polys]
        per = [[r] * len(p) for r, p in zip(arg, polys)]
    elif form == "mixed":
        arg, per = [], []
        for k, p in enumerate(polys):
            if k % 2:
                arg.append(next(it))
                per.append([arg[-1]] * len(p))
            else:
                arg.append([next(it) for _ in p])
                per.append(arg[-1])
    else:
        per = [[next(it) for _ in p] for p in polys]
        arg = [r for rs in per for r in rs] if form != "vertex" else [list(rs) for rs in per]
        if form == "array":
            arg = numpy.array(arg)
        elif form == "tuple":
            arg = tuple(arg)
    before = repr(arg)
    kw = dict(points_per_2pi=ppp) if ppp != 128 else {}
    if maxp != 199:
        kw["max_points"] = maxp
    out = s.fillet(arg, precision=prec, **kw)
    ensure(out is s, "returns the object")
    ensure(repr(arg) == before, "radii changed")
    ensure(len(s.polygons) == len(s.layers) == len(s.datatypes), "tags")
    if maxp > 4:
        ensure(all(len(q) <= maxp for q in s.polygons), "vertices", [len(q) for q in s.polygons])
    nt = 0
    whole = len(s.polygons) == len(polys) and all(len(q) < 195 for q in s.polygons) and (maxp < 5 or all(len(q) <= maxp for q in s.polygons))
    fractured = not whole or s.layers != [a for _, a, _ in specs] or s.datatypes != [b for _, _, b in specs]
    res = {}
    for q, a, b in zip(s.polygons, s.layers, s.datatypes):
        res.setdefault((a, b), []).append(numpy.asarray(q))
    exp = {}
    lims = {}
    for (p, a, b), rs in zip(specs, per):
        p, rs = dedup(p, rs)
        e = ideal(p, rs)
        exp.setdefault((a, b), []).append(e)
        lim = 0
        for v, c, r, t, turn in arcs(p, rs):
            if c is not None:
                phi = min(turn, 2 * 2 * math.pi / ppp)
                k = turn / phi
                lim += 1.05 * k * r * r / 2 * (phi - math.sin(phi)) + r * r * turn * 1e-4
                nt += r > 0
        lims[a, b] = lims.get((a, b), 0) + lim
    ensure(set(res) == set(exp), "layers and datatypes", set(res), set(exp))
    for tag in exp:
        lim = lims[tag] + 1e-9 * R.length(exp[tag]) + 1e-9
        lim += 2 * prec * (R.length(exp[tag]) + R.length(res[tag])) if fractured else 0
        d = oracle.measure([[q] for q in exp[tag]] + [[q] for q in res[tag]], lambda w: (w[..., : len(exp[tag])] != 0).any(axis=-1) != (w[..., len(exp[tag]):] != 0).any(axis=-1)) if len(exp[tag]) + len(res[tag]) < 40 else oracle.xor_area(exp[tag], res[tag])
        ensure(d <= lim, "region differs by", d, "limit", lim, "arc points", ppp)
    if not fractured:
        # every vertex is a kept corner or lies on an arc; the arcs reach the edges
        for q, (p, _, _), rs in zip(s.polygons, specs, per):
            p, rs = dedup(p, rs)
            scale = 1e-9 * (1 + float(numpy.abs(p).max()))
            best = numpy.full(len(q), numpy.inf)
            for v, c, r, t, turn in arcs(p, rs):
                for x in [v] if c is None or r == 0 else t:
                    d = numpy.hypot(*(q - x).T)
                    best = numpy.minimum(best, d)
                    ensure(d.min() <= scale * 100, "no vertex at", x, "corner", v, "radius", r)
                if c is not None and r > 0:
                    d = numpy.abs(numpy.hypot(*(q - c).T) - r)
                    # on the side of the corner
                    side = (q - (t[0] + t[1]) / 2) @ (v - c) >= -scale * 100
                    best = numpy.minimum(best, numpy.where(side, d, numpy.inf))
            ensure((best <= scale * 100).all(), "vertex off the arcs", q[best > scale * 100].tolist()[:3], best.max())
    ctx.nt(nt > 0)
    ctx.label(form, "fractured" if fractured else "whole")


def check_wrong(case, ctx):
    """Lists of the wrong length are rejected and nothing changes."""
    polys, counts = case
    s = gdspy.PolygonSet(polys)
    before = [q.copy() for q in s.polygons]
    total = sum(len(p) for p in polys)
    tried = 0
    for n in counts:
        if n not in (total, len(polys)):
            arg = [0.1] * n
        else:
            arg = [[0.1] * (len(p) + (1 if k == len(polys) - 1 else 0)) for k, p in enumerate(polys)]
        tried += 1
        try:
            s.fillet(arg)
        except ValueError:
            pass
        else:
            ensure(False, "no error for", len(arg), "radii", [len(p) for p in polys])
        ensure(len(s.polygons) == len(before) and all(numpy.array_equal(a, b) for a, b in zip(s.polygons, before)), "changed by a rejected call")
    ctx.nt(tried > 0)


@st.composite
def poly(draw):
    p = draw(st.one_of(R.simple, R.simple, R.cellsq, R.free.map(R.simplified).filter(lambda p: not R.tangled(p) and oracle.area(p) > 0.05)))
    # spikes (an edge that runs back along the previous one) have no fillet
    n = len(p)
    for i in range(n):
        a, v, b = p[i - 1], p[i], p[(i + 1) % n]
        u, w = (a[0] - v[0], a[1] - v[1]), (b[0] - v[0], b[1] - v[1])
        if abs(u[0] * w[1] - u[1] * w[0]) < 1e-3 * math.hypot(*u) * math.hypot(*w) and u[0] * w[0] + u[1] * w[1] > 0:
            p = [(0, 0), (4, 0), (4, 3)]
            break
    k = draw(st.integers(0, 3))
    if k == 1:  # a point in the middle of an edge
        i = draw(st.integers(0, len(p) - 1))
        a, b = p[i - 1], p[i]
        p = p[:i] + [((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)] + p[i:]
    elif k == 2:  # a repeated vertex
        i = draw(st.integers(0, len(p) - 1))
        p = p[: i + 1] + [p[i]] + p[i + 1 :]
    return p


rad = st.one_of(st.integers(0, 40).map(lambda k: k / 8), st.sampled_from([0, 0.5, 1, 1000]), st.integers(1, 5000).map(lambda k: k / 1000))
tag = st.integers(0, 3)
SUBS = [
    Sub(
        "fillet",
        st.tuples(
            st.lists(st.tuples(poly(), tag, tag), min_size=1, max_size=3), st.sampled_from(["one", "poly", "mixed", "vertex", "flat", "array", "tuple"]),
            st.lists(rad, min_size=1, max_size=6), st.sampled_from([128, 128, 16, 32, 64, 7, 500, 3]), st.sampled_from([199, 199, 0, 20, 5]), st.sampled_from([1e-3, 1e-4, 1e-6]),
        ),
        check, 1400,
    ),
    Sub("wrong", st.tuples(st.lists(gen.simple_polygon, min_size=1, max_size=3), st.lists(st.integers(0, 30), min_size=1, max_size=3)), check_wrong, 400),
]
