"""Polygons of flexible paths."""
import math
import warnings

import gdspy
import gen
import numpy
import oracle
from core import Sub, ensure
from flexmodel import Stroke, meet, unit
from hypothesis import strategies as st

RULE = (
    "1 to 4 parallel elements over a spine of 2 to 7 points with constant or varying widths and offsets, every corner style (including custom "
    "functions), end style and several tolerances and vertex limits, with or without repeated points. Non-trivial: an element that could be "
    "judged and has a corner or an end cap."
)
ASSUMPTIONS = [
    "both borders of an element advance along every segment and meet on the inner side of every corner; sharper corners are only drawn",
    "circular bends fit in their segments, and are judged with constant width",
    "smooth corners and ends are compared with Hobby's spline through the same points",
    "curves are compared within 1.4 to 2.3 tolerances, because the number of points is rounded to nearest",
]


def norm(v):
    return math.hypot(v[0], v[1])


def spike(f):
    """Custom corner: the mitre point pushed outwards by the factor f."""

    def join(p0, v0, p1, v1, c, w):
        p0, v0, p1, v1 = (numpy.array(q, dtype=float) for q in (p0, v0, p1, v1))
        m = meet(p0, v0, p1, v1)
        if m is None:
            return [(p0 + p1) / 2]
        p, a, b = m
        if a <= 1e-9 and b >= -1e-9:
            return [p]
        return [p0, p0 + f * (p - p0), p1 + f * (p - p1), p1]

    return join


def roof(h, k):
    """Custom end: trapezoid with the given heights on both sides."""

    def cap(p0, v0, p1, v1):
        p0, v0, p1, v1 = (numpy.array(q, dtype=float) for q in (p0, v0, p1, v1))
        return [p0, p0 + h * unit(v0), p1 - k * unit(v1), p1]

    return cap


def corner_of(c):
    return spike(c[1]) if isinstance(c, tuple) else c


def end_of(e):
    return roof(*e[1:]) if isinstance(e, tuple) and e[0] == "roof" else e


def cycle(v, n):
    return [v[i % len(v)] for i in range(n)] if isinstance(v, list) else [v] * n


def check(case, ctx):
    pts, wid, off, corners, ends, radius, tol, maxp, layer, datatype, props, dup = case
    n = len(wid[0])
    cs = [corner_of(c) for c in corners] if isinstance(corners, list) else corner_of(corners)
    es = [end_of(e) for e in ends] if isinstance(ends, list) else end_of(ends)
    kw = {}
    if corners != "natural":
        kw["corners"] = cs
    if ends != "flush":
        kw["ends"] = es
    if tol != 0.01:
        kw["tolerance"] = tol
    if maxp != 199:
        kw["max_points"] = maxp
    flat = all(w == wid[0] for w in wid) and all(o == off[0] for o in off)
    if flat and not dup:
        path = gdspy.FlexPath(pts, list(wid[0]), list(off[0]), bend_radius=radius, layer=layer, datatype=datatype, **kw)
    else:
        path = gdspy.FlexPath(pts[:1] if dup else tuple(pts[0]), list(wid[0]), list(off[0]), bend_radius=radius, layer=layer, datatype=datatype, **kw)
        for j in range(1, len(pts)):
            if dup and j % 2:
                path.segment((0, 0), relative=True)
            path.segment(pts[j], list(wid[j]), list(off[j]))
    props = props or []
    for k, v in props:
        path.properties[k] = v
    P = numpy.array(pts, dtype=float)
    ccs, ees, rr = cycle(corners, n), cycle(ends, n), cycle(radius, n)
    tags = list(zip(cycle(layer, n), cycle(datatype, n)))
    # the strokes
    groups = {}
    for i in range(n):
        s = Stroke(P, [o[i] for o in off], [w[i] for w in wid], corner_of(ccs[i]), end_of(ees[i]), rr[i], tol)
        g = groups.setdefault(tags[i], [[], True, 0.0, set()])
        g[0] += s.pieces
        g[1] &= s.ok
        g[2] += s.exact
        g[3] |= s.kinds
    by = path.get_polygons(True)
    everything = path.get_polygons()
    # an element whose sections all have no length after the offset shows nothing
    want = [k for k in dict.fromkeys(tags) if k in by or groups[k][1]]
    ensure(list(map(tuple, by)) == want, "layers", list(by), "instead of", want)
    flatlist = [p for v in by.values() for p in v]
    ensure(len(flatlist) == len(everything) and all(numpy.array_equal(a, b, equal_nan=True) for a, b in zip(flatlist, everything)), "plain list and grouped polygons differ")
    if maxp > 4:
        ensure(all(len(p) <= maxp for p in everything), "vertices", [len(p) for p in everything], "limit", maxp)
    again = path.get_polygons(True)
    ensure(all(len(again[k]) == len(by[k]) and all(numpy.array_equal(a, b, equal_nan=True) for a, b in zip(again[k], by[k])) for k in by), "second query differs")
    # the set
    ps = path.to_polygonset()
    ensure(dict(ps.properties) == dict(props), "properties of the set", ps.properties)
    got = {}
    for p, a, b in zip(ps.polygons, ps.layers, ps.datatypes):
        got.setdefault((a, b), []).append(numpy.asarray(p))
    ensure(len(ps.polygons) == len(ps.layers) == len(ps.datatypes), "tags of the set")
    ensure(set(got) == set(by), "tags of the set", list(got))
    areas = path.area(True)
    ensure(set(areas) == set(by), "area groups")
    for k in by:
        s = sum(oracle.area(p) for p in got[k])
        big = max((float(numpy.abs(p).max()) for p in got[k] if len(p)), default=0)
        ensure(not s < 1e300 or abs(areas[k] - s) <= 1e-9 * (1 + s + big * big), "area", areas[k], "of", k, "instead of", s)
    ensure(not sum(areas.values()) < 1e300 or abs(path.area() - sum(areas.values())) <= 1e-9 * (1 + sum(areas.values()) + big * big), "total area")
    for k, (ideal, ok, exact, kinds) in groups.items():
        if not ok:
            ctx.label("not judged")
            ensure(all(numpy.isfinite(p).all() for p in by.get(k, [])), "coordinates", by.get(k))
            continue
        per = sum(oracle.perimeter(q) for q in ideal)
        cut = 3e-3 if 4 < maxp < 30 or len(by[k]) > tags.count(k) else 0
        x = oracle.xor_area(ideal, by[k])
        ensure(x <= exact + (1e-8 + cut) * per, "elements", k, "differ from their strokes by area", x, "limit", exact + (1e-8 + cut) * per)
        x = oracle.xor_area(by[k], got[k])
        ensure(x <= 3e-3 * per, "set differs from polygons", k, x)
        ctx.nt(len(pts) > 2 or bool(kinds))
        ctx.label(*kinds)
        if cut:
            ctx.label("fractured")
        if any(len(set(w)) > 1 for w in zip(*wid)):
            ctx.label("tapered")
        if any(any(o) for o in off):
            ctx.label("offset")
        if len(pts) == 2:
            ctx.label("two points")


w = st.one_of(st.integers(1, 3), gen.grid(100, 3000))
o = st.one_of(st.integers(-4, 4), gen.grid(-4000, 4000))
c = st.one_of(st.integers(-30, 30), gen.grid(-30000, 30000))


@st.composite
def spine(draw):
    a = draw(st.integers(0, 359)) if draw(st.booleans()) else 90 * draw(st.integers(0, 3))
    p = [(draw(c), draw(c))]
    for _ in range(draw(st.sampled_from([1, 2, 2, 3, 4, 5, 6]))):
        r = draw(st.integers(4, 60))
        x, y = p[-1]
        p.append((round(x + r * math.cos(math.radians(a)), 3), round(y + r * math.sin(math.radians(a)), 3)))
        a += draw(st.one_of(st.sampled_from([0, 90, -90, 45, 60]), st.sampled_from([0.01, -0.02, 0.5, -1, 2, -4, 7]), st.integers(-120, 120), st.integers(-165, 165)))
    return p


corner = st.one_of(
    st.sampled_from(["natural", "natural", "miter", "bevel", "round", "smooth", "circular bend"]), st.tuples(st.just("spike"), st.sampled_from([0, 0.5, 0.9]))
)
ext = st.one_of(st.integers(0, 3), st.integers(-2, 5), gen.grid(-1500, 3000))
end = st.one_of(
    st.sampled_from(["flush", "extended", "round", "smooth"]), st.tuples(ext, ext), st.tuples(st.just("roof"), st.sampled_from([0.5, 1, 2]), st.sampled_from([0.5, 1.5]))
)


@st.composite
def flexes(draw):
    p = draw(spine())
    n = draw(st.sampled_from([1, 1, 2, 3, 4]))
    w0 = draw(st.lists(w, min_size=n, max_size=n))
    o0 = draw(st.one_of(st.just([0] * n), st.lists(o, min_size=n, max_size=n)))
    wid, off = [w0], [o0]
    vw, vo = draw(st.sampled_from([(0, 0), (0, 0), (1, 0), (0, 1), (1, 1)]))
    for _ in p[1:]:
        wid.append(draw(st.lists(w, min_size=n, max_size=n)) if vw else wid[-1])
        off.append([a + draw(gen.grid(-1000, 1000)) for a in off[-1]] if vo else off[-1])
    r = st.one_of(st.integers(2, 12), gen.grid(100, 12000))
    tag = st.one_of(st.integers(0, 9), st.lists(st.integers(0, 9), min_size=1, max_size=5), st.just([1, 2, 3, 4]), st.just([1, 2, 3, 4]))
    return (
        p, wid, off, draw(st.one_of(corner, st.lists(corner, min_size=1, max_size=4))), draw(st.one_of(end, st.lists(end, min_size=1, max_size=4))),
        draw(st.one_of(r, st.lists(r, min_size=1, max_size=4))), draw(st.sampled_from([0.01, 0.01, 0.1, 0.001])), draw(st.sampled_from([199, 199, 0, 5, 6, 8, 12, 20])),
        draw(tag), draw(tag), draw(gen.props), draw(st.booleans()) and draw(st.booleans()),
    )


SUBS = [Sub("stroke", flexes(), check, 4000)]
