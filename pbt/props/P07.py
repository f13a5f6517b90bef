"""Polygons of robust paths."""
import math
import warnings

import flexmodel
import gdspy
import gen
import numpy
import oracle
import robustmodel as rm
import strokes
from core import Rare, Sub, ensure
from hypothesis import assume
from hypothesis import strategies as st
from props import P06

RULE = (
    "1 to 5 construction calls of all kinds with transformations and queries in between, 1 to 3 elements, constant, linear or varying widths and offsets, "
    "corners, steps and smooth junctions, all ends, with and without fracturing. Non-trivial: compared with the stroke and with a corner, a step, a curve, a taper or a cap."
)
ASSUMPTIONS = [
    "widths are small enough for the borders to advance along the curve; other elements are only checked for the transformation and query rules",
    "at junctions both borders are cut at their crossing, if it is not far, or prolonged to the crossing of their tangents; parallel ones are joined by a step; other junctions, for which the code warns, are not judged",
    "directions of the borders at the ends of the pieces come from first order differences, which can displace far corners: these have a larger slack",
    "borders may be off by 1.6 times the tolerance between samples and by the tolerance at crossings",
]
rare = Rare()


def samples(p, us):
    """Points, unit right normals of the displaced curve, half widths."""
    c = numpy.array([p.at(u) for u in us])
    g = numpy.array([p.slope(u) for u in us])
    n = numpy.hypot(g[:, 0], g[:, 1])
    if not (n > 1e-3 * n.max()).all() or n.max() < 1e-6:
        return None
    t = g / n[:, None]
    h = numpy.array([p.width(u) for u in us]) / 2
    return c, t, h


def crossing(a, b):
    """Last crossing of polyline a with polyline b: (index, index, point) list."""
    out = []
    p, d = a[:-1], numpy.diff(a, axis=0)
    q, e = b[:-1], numpy.diff(b, axis=0)
    den = d[:, None, 0] * e[None, :, 1] - d[:, None, 1] * e[None, :, 0]
    w = q[None] - p[:, None]
    with numpy.errstate(all="ignore"):
        s = (w[..., 0] * e[None, :, 1] - w[..., 1] * e[None, :, 0]) / den
        t = (w[..., 0] * d[:, None, 1] - w[..., 1] * d[:, None, 0]) / den
    for i, j in zip(*numpy.nonzero((s >= 0) & (s <= 1) & (t >= 0) & (t <= 1))):
        out.append((i, j, p[i] + s[i, j] * d[i]))
    return out


def tangent(p, end, side):
    """Direction of one border at an end of a piece."""
    us = [1, 1 - 1e-3, 1 - 2e-3] if end else [0, 1e-3, 2e-3]
    r = samples(p, us)
    c, t, h = r
    n = numpy.column_stack([t[:, 1], -t[:, 0]])
    b = c + n * (h if side else -h)[:, None]
    x = (3 * b[0] - 4 * b[1] + b[2]) * (1 if end else -1)
    # the normals of the code turn half as fast at the ends
    y = x - 0.5 * (3 * n[0] - 4 * n[1] + n[2]) * (1 if end else -1) * (h[0] if side else -h[0])
    x, y = x / math.hypot(*x), y / math.hypot(*y)
    return x, abs(x[0] * y[1] - x[1] * y[0])


def outline(ps, end, tol):
    """(outline, kinds, slack) of one element, or None if it is not judged."""
    us = numpy.linspace(0, 1, 81)
    kinds = set()
    blur = 0.0
    left, right = [], []
    data = []
    for p in ps:
        r = samples(p, us)
        if r is None:
            return None
        c, t, h = r
        n = numpy.column_stack([t[:, 1], -t[:, 0]])
        lr = [c - n * h[:, None], c + n * h[:, None]]
        # borders advance along the curve
        step = numpy.hypot(*numpy.diff(c, axis=0).T)
        for b in lr:
            s = (numpy.diff(b, axis=0) * (t[1:] + t[:-1]) / 2).sum(axis=1)
            if not (s > 0.1 * step).all():
                return None
        turn = numpy.abs(numpy.diff(numpy.unwrap(numpy.arctan2(t[:, 1], t[:, 0]))))
        if turn.max() > 0.3:
            return None
        if turn.sum() > 0.01:
            kinds.add("curve")
        if numpy.ptp(h) > 1e-6:
            kinds.add("taper")
        data.append((c, t, h, lr))
    for side in (0, 1):
        line = data[0][3][side]
        for k0, (a, b) in enumerate(zip(data[:-1], data[1:])):
            A, B = line, b[3][side]
            p0, p1 = A[-1], B[0]
            gap = p1 - p0
            d0, d1 = A[-1] - A[-2], B[1] - B[0]
            (v0, r0), (v1, r1) = tangent(ps[k0], 1, side), tangent(ps[k0 + 1], 0, side)
            den = v0[0] * v1[1] - v0[1] * v1[0]
            dist = math.hypot(*gap)
            if dist <= 0.9 * tol:
                line = numpy.vstack((A[:-1], [(p0 + p1) / 2], B[1:]))
                continue
            if dist < 1.1 * tol or 1e-7 < abs(den) < 0.05:
                return None
            if abs(den) <= 1e-7:
                if v0 @ v1 < 0:
                    return None
                kinds.add("step")
                line = numpy.vstack((A, B))
                continue
            s0 = (gap[0] * v1[1] - gap[1] * v1[0]) / den
            s1 = (gap[0] * v0[1] - gap[1] * v0[0]) / den
            if abs(s0) < 0.05 * dist or abs(s1) < 0.05 * dist:
                return None
            if s0 > 0 and s1 < 0:
                if s0 > 12 * dist:
                    return None
                kinds.add("outer corner")
                # tangents from differences in one direction
                d0, d1 = d0 / math.hypot(*d0), d1 / math.hypot(*d1)
                slant = max(abs(d0[0] * v0[1] - d0[1] * v0[0]), abs(d1[0] * v1[1] - d1[1] * v1[0]))
                blur = max(blur, 1.3 * (abs(s0) + abs(s1)) * (r0 + r1 + 0.05 * slant) / abs(den))
                line = numpy.vstack((A, [p0 + v0 * s0], B))
            elif s0 < 0 and s1 > 0:
                x = crossing(a[3][side], B)
                if len(x) != 1:
                    return None
                i, j, q = x[0]
                if math.hypot(*(q - p0)) > 3 * dist or math.hypot(*(q - p1)) > 3 * dist:
                    return None
                k = len(A) - len(a[3][side]) + i
                if len(line) < len(a[3][side]) and k < 0:
                    return None
                # the part already cut at the previous junction
                if math.hypot(*(A[k] - a[3][side][i])) > 1e-9 * (1 + numpy.abs(A[k]).max()):
                    return None
                kinds.add("inner corner")
                e0, e1 = a[3][side][i + 1] - a[3][side][i], B[j + 1] - B[j]
                sine = abs(e0[0] * e1[1] - e0[1] * e1[0]) / math.hypot(*e0) / math.hypot(*e1)
                if sine < 0.1:
                    return None
                # positions closer than the tolerance count as a crossing
                blur = max(blur, 1.5 * tol / sine)
                line = numpy.vstack((A[: k + 1], [q], B[j + 1 :]))
            else:
                return None
        (left if side == 0 else right).append(line)
    left, right = left[0], right[0]
    caps = []
    if end != "flush":
        for which in (0, 1):
            c, t, h, lr = data[-1] if which else data[0]
            q, r = (c[-1], h[-1]) if which else (c[0], h[0])
            v = t[-1] if which else -t[0]
            n = numpy.array([v[1], -v[0]])  # right of the outward direction
            if end == "round":
                a = numpy.linspace(0, math.pi, 61)[1:-1, None]
                caps.append(q - r * n * numpy.cos(a) + r * v * numpy.sin(a))
            elif end == "smooth":
                # leaves and arrives along the borders
                b0, b1 = (lr[0], lr[1]) if which else (lr[1][::-1], lr[0][::-1])
                x, y = (tangent(ps[-1], 1, i)[0] for i in (0, 1)) if which else (-tangent(ps[0], 0, i)[0] for i in (1, 0))
                caps.append(flexmodel.hobby2(b0[-1], b1[-1], x, -y)[1:-1])
            else:
                d = r if end == "extended" else end[which]
                caps.append(numpy.array([q + d * v - r * n, q + d * v + r * n]))
            kinds.add("cap")
    else:
        caps = [numpy.zeros((0, 2))] * 2
    # outward from the left border at the end to the right one
    out = numpy.vstack((left, caps[1], right[::-1], caps[0]))
    sag = 0.0
    for c, t, h, lr in data:
        for b in lr:
            sag = max(sag, float(numpy.hypot(*numpy.diff(b, 2, axis=0).T).max()) / 4)
    return out, kinds, sag + blur


def region(case, ctx):
    x, widths, offsets, end, tol, max_points, layers, ops, scale = case
    n = len(widths)
    kw = {"tolerance": tol, "max_points": max_points, "ends": end, "layer": layers, "datatype": 7}
    # irrelevant unless the path is written as a path element
    kw["width_transform"] = int(abs(x[0])) % 2 == 0

    def new():
        return gdspy.RobustPath(x, list(widths), list(offsets), **kw)

    ops = [(op[0], op[1][:n] if isinstance(op[1], list) else op[1], op[2][:n] if isinstance(op[2], list) else op[2]) + tuple(op[3:]) if op[0] in P06.CALLS else op for op in ops]
    first = next((i for i, op in enumerate(ops) if op[0] in P06.CALLS and op[0] != "turn"), len(ops))
    ops = [op for i, op in enumerate(ops) if i >= first or op[0] != "turn"]
    path, fresh = new(), new()
    m = rm.Model(x, widths, offsets)
    ends = end if isinstance(end, list) else [end]
    ends = [ends[i % len(ends)] for i in range(n)]

    def query(p, op):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                for q in p.get_polygons():
                    q += 1000  # results are copies
                for q in p.get_polygons(True).values():
                    for r in q:
                        r *= 2
            except (OverflowError, ValueError):
                # paths that are not numbers, not judged
                pass
            ctx.label("query")

    with numpy.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rm.play(path, m, ops, ctx, query)
        plain = [op for op in ops if op[0] != "query"]
        rm.play(fresh, rm.Model(x, widths, offsets), plain)
        if not m.pieces[0]:
            ensure(path.get_polygons() == [] and path.get_polygons(True) == {} and path.to_polygonset() is None and path.area() == 0, "polygons of an empty path")
            return
        assume(numpy.isfinite(m.x).all())
    tags = [layers[i % len(layers)] if isinstance(layers, list) else layers for i in range(n)]
    # extensions follow the scale of the calls
    total = 1.0
    for op in ops:
        if op[0] == "scale":
            total *= op[1]
        elif op[0] == "transform" and op[3] is not None:
            total *= op[3]
    ends = [tuple(e * total for e in en) if isinstance(en, tuple) else en for en in ends]
    model, kinds, sag = {}, set(), 0.0
    for i in range(n):
        o = outline(m.pieces[i], ends[i], tol)
        if o is None:
            ctx.label("not judged")
            return
        model.setdefault((tags[i], 7), []).append(o[0])
        kinds |= o[1]
        sag = max(sag, o[2])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = path.get_polygons(True)
        want = fresh.get_polygons(True) if len(plain) < len(ops) else got
    ensure(list(got) == list(want) and all(len(a) == len(b) and all(numpy.array_equal(p, q, equal_nan=True) for p, q in zip(a, b)) for a, b in zip(got.values(), want.values())), "earlier queries changed the polygons")
    ensure(set(got) == {(t, 7) for t in tags}, "layers and datatypes", sorted(got))
    for k in kinds:
        ctx.label(k)
    if kinds:
        ctx.nt()
    big = 1 + max(numpy.abs(p).max() for ps in model.values() for p in ps)
    slope = max(p.width(u) for ps in m.pieces for p in ps for u in (0, 0.5, 1))
    # numerical normals inside the code
    loose = 2.3 * tol + 2 * sag + slope * 0.004 + 1e-6 * big
    rng = numpy.random.default_rng(len(ops) + n)
    for key, ideal in model.items():
        polys = got[key]
        line = [numpy.asarray(p) for p in polys]
        ensure(all(numpy.isfinite(p).all() for p in line), "vertices that are not numbers")
        if max_points > 4:
            ensure(max(len(p) for p in line) <= max_points, "polygon with", max(len(p) for p in line), "vertices")
        if len(line) == len(ideal):
            d = oracle.edge_distance(ideal, numpy.vstack(line))
            ensure(d.max() <= loose, "vertex away from the border by", d.max())
            for p, q in zip(ideal, line):
                d = oracle.edge_distance([q], p)
                ensure(d.max() <= loose, "border not followed, off by", d.max(), "at", p[d.argmax()])
        # membership of points around
        allp = numpy.vstack(ideal)
        k = rng.integers(0, len(allp), 150)
        probes = allp[k] + rng.normal(size=(150, 2)) * (4 * loose + rng.random((150, 1)) * 3 * slope)
        far = oracle.edge_distance(ideal, probes) > loose + (1.5e-3 if len(line) > len(ideal) else 0)
        probes = probes[far]
        if len(probes):
            wi = numpy.array([oracle.winding(p, probes) for p in ideal])
            if len(line) > len(ideal) and (numpy.abs(wi) > 1).any():
                ctx.label("fractured and folded")
                continue
            inside = (wi != 0).any(axis=0)
            also = oracle.in_union(line, probes)
            bad = inside != also
            ensure(not bad.any(), "point", probes[bad.argmax()], "inside" if inside[bad.argmax()] else "outside", "of the stroke only")
    # the same through the other queries
    s = path.to_polygonset()
    by = {}
    for p, l, d in zip(s.polygons, s.layers, s.datatypes):
        by.setdefault((l, d), []).append(p)
    ensure(set(by) == set(got), "layers of the set")
    for key in got:
        a, b = (sum(oracle.signed_area(p) * 1 for p in q) for q in (by[key], got[key]))
        ensure(abs(abs(a) - abs(b)) <= 1e-6 * big * big + 2e-3 * oracle.total_perimeter(by[key]), "area of the set", a, "instead of", b)
    areas = path.area(True)
    total_area = 0
    for key in got:
        a = sum(oracle.area(p) for p in by[key])
        ensure(abs(areas[key] - a) <= 1e-9 * big * big, "area", areas[key], "instead of", a)
        total_area += a
    ensure(abs(path.area() - total_area) <= 1e-9 * big * big, "total area")


def near(case):
    x, widths, offsets, end, tol, max_points, layers, ops, scale = case
    for d in (0.011, -0.013):
        yield (x, [w * (1 + d) for w in widths], [o + d * (i + 1) for i, o in enumerate(offsets)], end, tol * (1 + d), max_points, layers, ops, scale)


def check_region(case, ctx):
    rare(region, case, ctx, near)


def junctions(path):
    """Gaps between the borders at the junctions of the pieces."""
    out = []
    for j in range(1, len(path)):
        for arm in (-1, 0, 1):
            out += [math.hypot(*g) for g in path(j, arm) - path(j - 1e-7, arm)]
    return out


def check_moved(case, ctx):
    """Transforming the path or its polygons is the same."""
    x, widths, offsets, end, tol, max_points, layers, ops, move = case
    n = len(widths)
    ops = [(op[0], op[1][:n] if isinstance(op[1], list) else op[1], op[2][:n] if isinstance(op[2], list) else op[2]) + tuple(op[3:]) if op[0] in P06.CALLS else op for op in ops]
    first = next((i for i, op in enumerate(ops) if op[0] in P06.CALLS and op[0] != "turn"), len(ops))
    ops = [op for i, op in enumerate(ops) if i >= first or op[0] != "turn"]
    m = rm.Model(x, widths, offsets)
    path = gdspy.RobustPath(x, list(widths), list(offsets), tolerance=tol, max_points=0, ends=end, layer=layers)
    with numpy.errstate(all="ignore"), warnings.catch_warnings(record=True) as notes:
        warnings.simplefilter("always")
        rm.play(path, m, ops, ctx)
        assume(m.pieces[0] and numpy.isfinite(m.x).all())
        gaps = junctions(path)
        before = path.get_polygons()
        m2 = rm.Model(m.x, m.w, m.o)
        rm.play(path, m2, [move], ctx)
        after = path.get_polygons()
    assume(not any("join" in str(w.message) or "ntersection" in str(w.message) for w in notes))
    assume(all(numpy.isfinite(p).all() for p in before))
    probe = rm.Model((0, 0), [1], [0])
    pts = []
    for q in [(0, 0), (1, 0), (0, 1)]:
        t = rm.Model(q, [1], [0])
        rm.play(gdspy.RobustPath(q, 1), t, [move])
        pts.append(t.x)
    M = numpy.column_stack([pts[1] - pts[0], pts[2] - pts[0]])
    s = abs(numpy.linalg.det(M)) ** 0.5
    ensure(len(before) == len(after), "number of polygons")
    # gaps that are closed before and not after, or the other way round
    assume(not any(0.5 * tol * min(1, 1 / s) < g < 2 * tol * max(1, 1 / s) for g in gaps))
    big = 1 + max(numpy.abs(p).max() for p in before + after)
    if any(k in ("turn", "arc", "bezier", "parametric", "smooth", "segment") for k in [op[0] for op in ops]):
        ctx.nt()
    for p, q in zip(before, after):
        w = p @ M.T + pts[0]
        if s == 1:
            if len(w) == len(q) and numpy.abs(w - q).max() <= 1e-7 * big:
                continue
        lim = (2.3 if s == 1 else 6) * tol * (1 + s) + 1e-6 * big
        d = max(oracle.edge_distance([w], q).max(), oracle.edge_distance([q], w).max())
        ensure(d <= lim, "the transformed path differs from its transformed polygons by", d)


def near_moved(case):
    x, widths, offsets, end, tol, max_points, layers, ops, move = case
    for d in (0.011, -0.013):
        yield (x, [w * (1 + d) for w in widths], [o + d * (i + 1) for i, o in enumerate(offsets)], end, tol * (1 + d), max_points, layers, ops, move)


rare_moved = Rare()


def moved(case, ctx):
    rare_moved(check_moved, case, ctx, near_moved)


num = st.one_of(st.integers(-30, 30), gen.grid(-30000, 30000))
pt = st.tuples(num, num)
far = pt.filter(lambda p: math.hypot(*p) > 8)
w1 = st.one_of(st.sampled_from([0.5, 1, 2]), gen.grid(100, 2000))
o1 = st.one_of(st.integers(-2, 2), gen.grid(-2000, 2000))
wf = st.tuples(st.just("bump"), w1, st.sampled_from([1, 2]))
of = st.tuples(st.just("bump"), o1, st.sampled_from([1, -1]))
inc = st.tuples(st.just("wave"), st.sampled_from([0.5, -1]), st.sampled_from([1, 3]))
width = st.one_of(st.none(), st.none(), st.none(), w1, wf, st.lists(st.one_of(w1, wf), min_size=3, max_size=3))
offset = st.one_of(st.none(), st.none(), st.none(), o1, inc, st.lists(st.one_of(o1, of), min_size=3, max_size=3))
rad = st.one_of(st.integers(6, 25), gen.grid(6000, 25000))
build = [
    st.tuples(st.just("segment"), width, offset, far, st.just(True)),
    st.tuples(st.just("segment"), width, offset, far, st.booleans()),
    st.tuples(st.just("arc"), width, offset, rad, P06.ang, P06.sweep),
    st.tuples(st.just("turn"), width, offset, rad, st.one_of(P06.sweep, st.sampled_from(["l", "r", "ll", "rr"]))),
    st.tuples(st.just("turn"), width, offset, rad, st.one_of(P06.sweep, st.sampled_from(["l", "r"]))),
    st.tuples(st.just("bezier"), width, offset, st.lists(far, min_size=1, max_size=3), st.just(True)),
    st.tuples(st.just("parametric"), width, offset, st.lists(far, min_size=1, max_size=2), st.just(True), st.booleans()),
    st.tuples(st.just("smooth"), width, offset, st.lists(far, min_size=1, max_size=3), st.just(True)),
]
ops = st.lists(st.one_of(*build, *build, *P06.moves), min_size=1, max_size=5)
ext = st.one_of(st.just(0), gen.grid(0, 3000))
end1 = st.one_of(st.sampled_from(["flush", "extended", "round", "smooth"]), st.tuples(ext, ext))


@st.composite
def cases(draw, move=None):
    n = draw(st.integers(1, 3))
    return (
        draw(pt), draw(st.lists(w1, min_size=n, max_size=n)), draw(st.one_of(st.just([0] * n), st.lists(o1, min_size=n, max_size=n))),
        draw(st.one_of(end1, st.lists(end1, min_size=1, max_size=3))), draw(st.sampled_from([0.01, 0.03, 0.1])),
        draw(st.sampled_from([0, 0, 199, 20])), draw(st.one_of(st.integers(0, 9), st.lists(st.integers(0, 9), min_size=1, max_size=3))),
        draw(ops), draw(move) if move is not None else None,
    )


# pieces that continue in the same direction, with sudden changes
jumpw = st.one_of(st.none(), w1, w1.map(lambda v: ("bump", v, 0)), w1.map(lambda v: ("bump", v, 0)), wf)
jumpo = st.one_of(st.none(), o1, o1.map(lambda v: ("bump", v, 0)), o1.map(lambda v: ("bump", v, 0)))


@st.composite
def straight(draw):
    base = draw(cases())
    d = draw(st.sampled_from([(9, 0), (0, 9), (-12, 0), (0, -8), (6, 8), (-9, 3), (5, -11)]))
    n = draw(st.integers(2, 4))
    out = []
    for k in range(n):
        if k and draw(st.integers(0, 4)) == 0:
            out.append(("turn", draw(jumpw), draw(jumpo), draw(rad), draw(P06.sweep)))
            # the direction is kept by turns only
            while len(out) < n:
                out.append(("turn", draw(jumpw), draw(jumpo), draw(rad), draw(P06.sweep)))
            break
        m = draw(st.sampled_from([1, 2, 0.75]))
        out.append(("segment", draw(jumpw), draw(jumpo), (d[0] * m, d[1] * m), True))
    if draw(st.booleans()):
        out.insert(draw(st.integers(1, len(out))), draw(st.one_of(*P06.moves)))
    return base[:7] + (out, None)


@st.composite
def continued(draw):
    """Displaced elements, a move, and more of them in the same direction."""
    base = draw(cases())
    n = len(base[1])
    offs = draw(st.lists(o1.filter(bool), min_size=n, max_size=n))
    out = [draw(st.sampled_from([0, 1, 3]).flatmap(lambda i: build[i]))]
    move = draw(st.one_of(*P06.moves[:4]))
    if draw(st.booleans()):
        move = ("transform",) + draw(st.tuples(st.one_of(st.none(), pt), st.one_of(st.none(), P06.ang), st.one_of(st.none(), P06.mag), st.just(True), st.one_of(st.none(), pt)))
    out.append(move)
    keep = st.one_of(st.none(), st.none(), w1)
    for k in range(draw(st.integers(1, 2))):
        out.append(("turn", draw(keep), draw(st.one_of(st.none(), o1)), draw(rad), draw(P06.sweep)))
    return base[:2] + (offs,) + base[3:7] + (out, None)


SUBS = [
    Sub("continued", continued(), check_region, 450),
    Sub("stroke", cases(), check_region, 700),
    Sub("steps", straight(), check_region, 250),
    Sub("moved", cases(st.one_of(*P06.moves[:4])), moved, 250),
]
