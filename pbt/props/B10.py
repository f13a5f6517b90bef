"""Rectangles, round shapes and polygonal text."""
import math
import os

import gdspy
import gen
import numpy
import oracle
import regions as R
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "round: circles, ellipses, rings and sections of them with any angles, tolerance or number of points and vertex limit; rectangle: any "
    "diagonal; text: strings of known and unknown characters, tabs and new lines. Non-trivial: sections, ellipses or rings; at least two "
    "characters."
)
ASSUMPTIONS = [
    "sections start and end at polar angles and span at most one turn; inner radii are below the outer ones in every direction",
    "a sector may lose up to two of the points that the tolerance asks for to its centre, in each piece",
    "glyphs are compared with a 5 by 9 bitmap of the font",
]

TAU = 2 * math.pi


def boundary(center, rx, ry, ts):
    """Points of the ellipse at polar angles."""
    out = []
    for t in ts:
        c, s = math.cos(t), math.sin(t)
        r = 1 / math.hypot(c / rx, s / ry)
        out.append((center[0] + r * c, center[1] + r * s))
    return out


def parameter(rx, ry, a):
    """Parametric angle of the point at polar angle a (same turn)."""
    t = math.atan2(rx * math.sin(a), ry * math.cos(a))
    return t + TAU * round((a - t) / TAU)


def round_shape(case, ctx):
    center, outer, inner, a0, sweep, tol, npts, maxp, ly, dt = case
    rx, ry = outer if isinstance(outer, tuple) else (outer, outer)
    ix, iy = inner if isinstance(inner, tuple) else (inner, inner)
    hole = max(ix, iy) > 0
    full = sweep == 0
    kw = dict(layer=ly, datatype=dt)
    if hole:
        kw["inner_radius"] = inner
    if a0 or sweep:
        kw.update(initial_angle=a0, final_angle=a0 + sweep)
    if npts:
        kw["number_of_points"] = npts
    elif tol != 0.01:
        kw["tolerance"] = tol
    if maxp != 199:
        kw["max_points"] = maxp
    shape = gdspy.Round(center, outer, **kw)
    polys = [numpy.asarray(p) for p in shape.polygons]
    ensure(len(shape.layers) == len(shape.datatypes) == len(polys), "tags")
    ensure(set(shape.layers) == {ly} and set(shape.datatypes) == {dt}, "layer, datatype")
    total = sum(len(p) for p in polys)
    if maxp:
        ensure(all(len(p) <= maxp for p in polys), "more than", maxp, "vertices", [len(p) for p in polys])
    else:
        ensure(len(polys) == 1, "fractured without a limit")
    span = abs(sweep) if sweep else TAU
    rmax = max(rx, ry)
    # parameter step allowed for the chords of one piece
    if npts:
        ensure(npts - len(polys) < total <= npts, "number of points", total, "instead of", npts)
        n = npts
        if maxp:
            ensure(len(polys) == -(-npts // maxp), "pieces", len(polys))
    else:
        n = max(3, span / (2 * math.acos(max(-1, 1 - tol / rmax)))) * (2 if hole else 1)
    ensure(total <= 1.3 * n + 5 * len(polys) + 3, "too many points", total, "for", n)
    p = len(polys)
    q = (n / p / 2 - 2) if hole else (n / p - 2.5)
    q = max(1, q)
    edges = [a0 + sweep * k / p if sweep else a0 + TAU * k / p for k in range(p + 1)]
    step = max(abs(parameter(rx, ry, edges[k + 1]) - parameter(rx, ry, edges[k])) for k in range(p)) / q
    dev = rmax * (1 - math.cos(min(math.pi, step / 2)))
    if hole and min(ix, iy) > 0:
        istep = max(abs(parameter(ix, iy, edges[k + 1]) - parameter(ix, iy, edges[k])) for k in range(p)) / q
        dev = max(dev, max(ix, iy) * (1 - math.cos(min(math.pi, istep / 2))))
    m = max(48, min(300, int(6 * n)))
    ts = [a0 + (sweep if sweep else TAU) * k / m for k in range(m + 1)]
    ideal = boundary(center, rx, ry, ts)
    if hole:
        ideal = ideal + boundary(center, ix, iy, ts[::-1])
    elif not full:
        ideal = ideal + [center]
    fine = rmax * (1 - math.cos(math.pi / m)) * 2
    # chords cut off at most two thirds of dev of the area along the arc
    arc = span * (rmax + max(ix, iy)) * 1.3
    lim = (0.75 * dev + fine) * arc + 1e-9 * rmax ** 2
    x = oracle.xor_area([ideal], polys)
    ensure(x <= lim, "region differs by area", x, "limit", lim, "areas", oracle.union_area([ideal]), oracle.union_area(polys))
    # the vertices are on the ideal outline
    scale = max(abs(center[0]), abs(center[1]), rmax)
    for poly in polys:
        for v in poly:
            u = (v[0] - center[0], v[1] - center[1])
            on = abs(math.hypot(u[0] / rx, u[1] / ry) - 1)
            if hole:
                on = min(on, abs(math.hypot(u[0] / ix, u[1] / iy) - 1))
            elif not full or p > 1:
                on = min(on, math.hypot(*u) / rmax)
            ensure(on <= 1e-9 * scale / min(rx, ry, *([ix, iy] if hole else [])), "vertex", v, "not on the outline")
    if not npts and p == 1 and tol <= 0.02 * rmax and (full or (hole and rx == ry)):
        # the chords along the outer edge follow the tolerance closely
        e = (polys[0] - numpy.array(center)) / (rx, ry)
        on = numpy.abs(numpy.hypot(*e.T) - 1) <= 1e-6
        sag = 1 - numpy.hypot(*((e + numpy.roll(e, -1, axis=0)) / 2).T)[on & numpy.roll(on, -1)]
        if hole and full:
            sag = sag[sag < 0.5]
        ensure(len(sag) and sag.max() * rmax <= 1.65 * tol + 1e-6 * scale, "chords deviate by", sag.max() * rmax if len(sag) else None, "with tolerance", tol)
        ctx.label("sagitta")
    o = sum(oracle.area(q) for q in polys) - oracle.union_area(polys)
    ensure(o <= lim * 0.01 + 1e-9 * rmax ** 2, "pieces overlap", o)
    ctx.nt(hole or not full or rx != ry)
    ctx.label("ring" if hole else "disc", "full" if full else "section", "ellipse" if rx != ry else "circle", "pieces" if p > 1 else "one piece", "points" if npts else "tolerance")


def rectangle(case, ctx):
    a, b, ly, dt = case
    o = gdspy.Rectangle(a, b, ly, dt)
    ensure(len(o.polygons) == 1 and o.layers == [ly] and o.datatypes == [dt], "attributes")
    p = [tuple(float(x) for x in v) for v in o.polygons[0]]
    ensure(len(p) == 4, "vertices", p)
    corners = [(a[0], a[1]), (a[0], b[1]), (b[0], b[1]), (b[0], a[1])]
    want = [(float(x), float(y)) for x, y in corners]
    ok = any(p == w[k:] + w[:k] for w in (want, want[::-1]) for k in range(4))
    ensure(ok, "corners", p, want)
    ctx.nt(a[0] != b[0] and a[1] != b[1])


FONT = {}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "font.txt")) as f:
    for row in f:
        ch, rows = row[0], row[2:].split()
        FONT[ch] = [(x, 8 - k) for k, r in enumerate(rows) for x in range(5) if r[x] == "#"]


def text(case, ctx):
    s, size, pos, horizontal, angle, ly, dt = case
    kw = dict(layer=ly, datatype=dt)
    if pos != (0, 0):
        kw["position"] = pos
    if not horizontal:
        kw["horizontal"] = False
    if angle:
        kw["angle"] = angle
    o = gdspy.Text(s, size, **kw)
    n = len(o.polygons)
    ensure(o.layers == [ly] * n and o.datatypes == [dt] * n, "attributes")
    # place the bitmap of each character; a column or row of text is 8 or 11 units
    u = size / 9
    cells = []
    col = row = 0
    for ch in s:
        if ch == "\n":
            row, col = (row + 1, 0) if horizontal else (0, col + 1)
        elif ch == "\t":
            # the last of each four columns (rows) is a stop; at least one further
            if horizontal:
                col = ((col + 1) // 4 + 1) * 4 - 1
            else:
                row = ((row + 1) // 4 + 1) * 4 - 1
        else:
            for x, y in FONT.get(ch, ()):
                cells.append((x + 8 * col, y - 11 * row))
            if horizontal:
                col += 1
            else:
                row += 1
    got = [oracle.rot(numpy.asarray(p, dtype=float) - numpy.array(pos, dtype=float), -angle) / u for p in o.polygons]
    scale = (abs(pos[0]) + abs(pos[1]) + 60 * size) / u
    grid = 1e-9 * scale + 1e-9
    for p in got:
        ensure(numpy.abs(p - numpy.round(p)).max() <= grid, "glyph off the font grid", p.tolist())
    got = [numpy.round(p) for p in got]
    area = sum(oracle.area(p) for p in got)
    ensure(abs(area - len(cells)) < 1e-6, "glyph area", area, "instead of", len(cells))
    if cells:
        pts = numpy.array(cells) + 0.5
        inside = numpy.zeros(len(pts), int)
        for p in got:
            inside += oracle.winding(p, pts) != 0
        ensure((inside == 1).all(), "pixels", [cells[k] for k in numpy.flatnonzero(inside != 1)], "not drawn exactly once")
    ctx.nt(len([ch for ch in s if ch in FONT]) > 1)
    ctx.label("horizontal" if horizontal else "vertical", *(["tab"] if "\t" in s else []), *(["newline"] if "\n" in s else []))


c = st.one_of(st.integers(-20, 20), gen.grid(-20000, 20000))
pt = st.tuples(c, c)
rad = st.one_of(st.integers(1, 20), st.integers(1, 4000).map(lambda k: k / 100), st.just(0.02))
share = st.integers(1, 19).map(lambda k: k / 20)


@st.composite
def radii(draw):
    outer = draw(st.one_of(rad, st.tuples(rad, rad)))
    if isinstance(outer, tuple):
        a, b = outer
        if not 1 / 8 <= a / b <= 8:
            outer = (a, a / 2)
    lo = min(outer) if isinstance(outer, tuple) else outer
    hole = draw(st.sampled_from(["none", "circle", "ellipse"]))
    if hole == "none":
        return outer, 0
    if hole == "circle":
        return outer, lo * draw(share)
    o = outer if isinstance(outer, tuple) else (outer, outer)
    return outer, (o[0] * draw(share), o[1] * draw(share))


turn8 = st.integers(-24, 24).map(lambda k: k * math.pi / 4)
free = st.integers(-700, 700).map(lambda k: k / 100)
a0 = st.one_of(st.just(0), turn8, free)
sweep = st.one_of(
    st.just(0), st.sampled_from([1, -1, 2, -2, 3, 4, -4, 8, -8]).map(lambda k: k * math.pi / 4), st.integers(-628, 628).filter(lambda k: abs(k) > 4).map(lambda k: k / 100)
)
tol = st.sampled_from([0.01, 0.01, 0.001, 0.1, 0.05, 0.0005])
npts = st.one_of(st.just(0), st.just(0), st.integers(12, 60), st.integers(12, 60), st.integers(100, 260), st.integers(200, 450))
maxp = st.sampled_from([199, 199, 0, 12, 20, 50, 23])
tag = st.integers(0, 255)


def flat(t):
    return (t[0],) + t[1] + t[2:]


def small(t):
    # more vertices than the area oracle can take
    outer, tol, npts = t[1], t[5], t[6]
    r = max(outer) if isinstance(outer, tuple) else outer
    return bool(npts) or r / tol < 3000


rounds = st.tuples(pt, radii(), a0, sweep, tol, npts, maxp, tag, tag).map(flat).filter(small)
# the ends of ranges where a turn more or less is easily taken
turns = st.tuples(
    pt, radii(), st.sampled_from([k * math.pi for k in (-3, -1, 1, 3, -2, 2, 0.5, -0.5, -1.5)]), st.sampled_from([k * math.pi for k in (0, 1, -1, 2, -2, 0.5, -0.5, 1.5)]),
    tol, npts, maxp, tag, tag,
).map(flat).filter(small)
chars = st.text(st.sampled_from("".join(sorted(FONT)) + "\t\t\n\n  \x07\u00e9"), max_size=8)
texts = st.tuples(
    chars, st.one_of(st.integers(1, 30), gen.grid(100, 90000)), st.one_of(st.just((0, 0)), pt), st.booleans(),
    st.one_of(st.just(0), st.sampled_from([math.pi / 2, math.pi, -0.5]), free), tag, tag,
)

SUBS = [
    Sub("round", rounds, round_shape, 1500),
    Sub("turns", turns, round_shape, 500),
    Sub("rectangle", st.tuples(pt, pt, tag, tag), rectangle, 1000),
    Sub("text", texts, text, 2500),
]
