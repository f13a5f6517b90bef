"""Path elements in GDSII files."""
import io
import math
import warnings

import flexmodel
import gdspy
import gds
import gen
import numpy
import oracle
import robustmodel as rm
from core import Rare, Sub, ensure
from flexmodel import Stroke, displaced
from hypothesis import assume
from hypothesis import strategies as st
from props import P03, P06, P07

RULE = (
    "Flexible paths (1 to 4 elements of constant width, constant or varying offsets, natural corners and circular bends, repeated points, transformations) and "
    "robust paths (1 to 5 construction calls and transformations) with all end types, scaling and absolute widths, properties, several units; the file is read by an "
    "independent parser. Non-trivial: the centre line or region of an element with a corner, bend, curve, offset or transformation was compared."
)
ASSUMPTIONS = [
    "the format has no variable widths: widths are constant along each path",
    "smooth ends are written as round ones, as documented; their shape is not compared",
    "a stroke is only compared where displaced segments advance along the spine",
    "junctions of robust paths whose centre lines neither meet nor cross nearby are not judged",
]
UNITS = [(1e-6, 1e-9), (1e-6, 1e-9), (1e-6, 5e-9), (1e-3, 1e-9), (1e-6, 2.5e-10)]
PATHTYPE = {"flush": 0, "round": 1, "smooth": 1, "extended": 2}


def write(elements, units):
    lib = gdspy.GdsLibrary("L", unit=units[0], precision=units[1])
    lib.new_cell("A").add(elements)
    f = io.BytesIO()
    lib.write_gds(f)
    return gds.parse(f.getvalue())["cells"][0]["elements"]


def records(els, n, tags, widths, absolute, ends, props, k):
    """Everything but the coordinates."""
    ensure([e["kind"] for e in els] == ["PATH"] * n, "elements", [e["kind"] for e in els], "for", n, "parallel paths")
    for i, e in enumerate(els):
        ensure((e["layer"], e["type"]) == tags[i], "layer and datatype", (e["layer"], e["type"]), "instead of", tags[i])
        w = widths[i] * k
        ensure(abs(abs(e["width"]) - w) <= 0.5 + 1e-6 * w, "width", e["width"], "instead of", w)
        ensure(e["width"] == 0 or (e["width"] < 0) == absolute, "sign of the width", e["width"], "absolute" if absolute else "scaling")
        if isinstance(ends[i], tuple):
            ensure(e["pathtype"] == 4, "path type", e["pathtype"], "for extensions")
            for key, x in zip(("bgnextn", "endextn"), ends[i]):
                ensure(abs(e[key] - x * k) <= 0.5 + 1e-6 * abs(x * k), key, e[key], "instead of", x * k)
        else:
            ensure(e["pathtype"] == PATHTYPE[ends[i]] and e["bgnextn"] == e["endextn"] == 0, "path type", e["pathtype"], "for", ends[i])
        ensure(e["props"] == [(a, v) for a, v in props], "properties", e["props"])


def bent(C, R, tol):
    """Centre line with circular bends, or None if they do not fit."""
    u = [flexmodel.unit(v) for v in C[1:] - C[:-1]]
    L = [math.hypot(*v) for v in C[1:] - C[:-1]]
    cut = [0.0] * len(C)
    out = [C[:1]]
    for j in range(1, len(C) - 1):
        da = flexmodel.wrap(flexmodel.angle(u[j]) - flexmodel.angle(u[j - 1]))
        if abs(flexmodel.cross(u[j - 1], u[j])) < 1e-12:
            if u[j - 1] @ u[j] < 0:
                return None
            out.append(C[j : j + 1])
            continue
        t = cut[j] = R * math.tan(abs(da) / 2)
        o = C[j] - u[j - 1] * t + (flexmodel.left(u[j - 1]) if da > 0 else -flexmodel.left(u[j - 1])) * R
        a0 = flexmodel.angle(C[j] - u[j - 1] * t - o)
        a = numpy.linspace(a0, a0 + da, 8 + int(200 * abs(da)))[:, None]
        out.append(o + R * numpy.column_stack([numpy.cos(a), numpy.sin(a)]))
    for j in range(len(L)):
        if cut[j] + cut[j + 1] > 0.999 * L[j]:
            return None
    return numpy.concatenate(out + [C[-1:]])


def apart(a, b):
    """Largest distance between two polylines, both ways."""
    return max(float(oracle.edge_distance([a], dense(b), closed=False).max()), float(oracle.edge_distance([b], dense(a), closed=False).max()))


def dense(a):
    return numpy.concatenate([a, (a[1:] + a[:-1]) / 2, 0.75 * a[1:] + 0.25 * a[:-1]])


def check_flex(case, ctx):
    pts, wid, off, corners, ends, radius, tol, layer, datatype, props, dup, wt, moves, units, reflect = case
    n = len(wid)
    props = props or []
    flat = all(o == off[0] for o in off)
    kw = dict(bend_radius=radius, layer=layer, datatype=datatype, tolerance=tol, corners=corners, ends=ends, gdsii_path=True, max_points=0)
    if not wt:
        kw["width_transform"] = False
    if flat and not dup:
        path = gdspy.FlexPath(pts, list(wid), list(off[0]), **kw)
    else:
        path = gdspy.FlexPath(pts[:1], list(wid), list(off[0]), **kw)
        for j in range(1, len(pts)):
            if dup and j % 2:
                path.segment((0, 0), relative=True)
            path.segment(pts[j], offset=list(off[j]))
    for a, v in props:
        path.properties[a] = v
    P, W, O = numpy.array(pts, dtype=float), numpy.array(wid, dtype=float), numpy.array(off, dtype=float)
    total = 1.0
    for op in moves:
        if op[0] == "translate":
            path.translate(*op[1])
            P = P + op[1]
        elif op[0] == "rotate":
            path.rotate(op[1], op[2])
            P = oracle.rot(P, op[1], op[2])
        else:
            path.scale(op[1], op[2])
            P = (P - op[2]) * op[1] + op[2]
            total *= op[1]
    if wt:
        W = W * total
    O = O * total
    E = P03.cycle(ends, n)
    E = [tuple(x * total for x in e) if isinstance(e, tuple) else e for e in E]
    R = [r * total for r in P03.cycle(radius, n)]
    tags = list(zip(P03.cycle(layer, n), P03.cycle(datatype, n)))
    K = P03.cycle(corners, n)
    k = units[0] / units[1]
    assume((numpy.abs(P).max() + numpy.abs(O).max() + numpy.abs(W).max()) * k < 1e9)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        els = write(path, units)
        again = write(path, units)
    ensure(els == again, "written twice with different results")
    if not (P != P[0]).any():
        return
    records(els, n, tags, W, not wt, E, props, k)
    size = 1 + float(numpy.abs(P).max())
    shown = None
    for i in range(n):
        xy = numpy.array(els[i]["xy"], dtype=float).reshape(-1, 2) / k
        if O[:, i].any():
            C, ok = displaced(P, O[:, i])
        else:
            C, ok = P, True
        if not ok:
            ctx.label("folded")
            continue
        lim = 0.5 * math.sqrt(2) / k + 1e-9 * size
        if K[i] == "circular bend":
            C = bent(C, R[i], tol)
            if C is None:
                ctx.label("bend does not fit")
                continue
            d = apart(xy, C)
            ensure(d <= lim + 2.3 * tol + 4e-6 * R[i], "bends of the centre line off by", d)
            ensure(max(numpy.hypot(*(xy[0] - C[0])), numpy.hypot(*(xy[-1] - C[-1]))) <= lim, "ends of the centre line")
            ctx.label("bend")
            ctx.nt(len(P) > 2)
        else:
            ensure(len(xy) == len(C), "centre line with", len(xy), "points instead of", len(C))
            d = float(numpy.hypot(*(xy - C).T).max())
            # displaced corners of nearly straight spines
            ensure(d <= lim, "centre line off by", d)
            ctx.label("corners")
            ctx.nt(len(P) > 2)
        if E[i] == "smooth" or K[i] == "circular bend":
            continue
        # what a reader draws is what the path shows
        keep = [0] + [j for j in range(1, len(xy)) if (xy[j] != xy[j - 1]).any()]
        xy = xy[keep]
        if len(xy) < 2:
            continue
        w = abs(els[i]["width"]) / k
        e = (els[i]["bgnextn"] / k, els[i]["endextn"] / k) if els[i]["pathtype"] == 4 else E[i]
        drawn = Stroke(xy, [0.0] * len(xy), [w] * len(xy), "natural", e, None, tol)
        ideal = Stroke(P, O[:, i], [W[i]] * len(P), "natural", E[i], None, tol)
        if not (drawn.ok and ideal.ok):
            ctx.label("not judged")
            continue
        if shown is None:
            shown = path.get_polygons(True)
        per = sum(oracle.perimeter(q) for q in ideal.pieces)
        x = oracle.xor_area(drawn.pieces, [shown[tags[i]][tags[:i].count(tags[i])]])
        ensure(x <= drawn.exact + ideal.exact + 3 / k * per, "element", i, "differs from its polygon by area", x, "limit", drawn.exact + ideal.exact + 3 / k * per)
        ctx.label("region of type %d" % els[i]["pathtype"])
        if moves:
            ctx.label("moved")


def middle(ps, tol):
    """Centre line of one element of a robust path, or None."""
    us = numpy.linspace(0, 1, 121)
    lines = []
    for p in ps:
        c = numpy.array([p.at(u) for u in us])
        r = P07.samples(p, us)
        if r is None:
            return None
        t = r[1]
        # displaced curves without loops
        turn = numpy.abs(numpy.diff(numpy.unwrap(numpy.arctan2(t[:, 1], t[:, 0]))))
        if turn.max() > 0.2:
            return None
        lines.append(c)
    out = lines[0]
    slack = 0.0
    kinds = set()
    for k, B in enumerate(lines[1:]):
        A = out
        gap = B[0] - A[-1]
        dist = math.hypot(*gap)
        # steps shorter than the tolerance are closed
        if dist <= 1.1 * tol:
            out = numpy.vstack((A, B))
            continue
        v0, v1 = ps[k].slope(1), ps[k + 1].slope(0)
        v0, v1 = v0 / math.hypot(*v0), v1 / math.hypot(*v1)
        den = v0[0] * v1[1] - v0[1] * v1[0]
        if 1e-7 < abs(den) < 0.05:
            return None
        if abs(den) <= 1e-7:
            if v0 @ v1 < 0:
                return None
            kinds.add("step")
            out = numpy.vstack((A, B))
            continue
        s0 = (gap[0] * v1[1] - gap[1] * v1[0]) / den
        s1 = (gap[0] * v0[1] - gap[1] * v0[0]) / den
        if abs(s0) < 0.05 * dist or abs(s1) < 0.05 * dist:
            return None
        if s0 > 0 and s1 < 0:
            if s0 > 12 * dist:
                return None
            kinds.add("outer corner")
            # tangents from differences in one direction
            d0, d1 = ps[k].at(1) - ps[k].at(1 - 5e-4), ps[k + 1].at(5e-4) - ps[k + 1].at(0)
            turned = sum(abs(flexmodel.cross(d, v)) / math.hypot(*d) for d, v in ((d0, v0), (d1, v1)))
            slack = max(slack, 1.3 * (abs(s0) + abs(s1)) * turned / abs(den))
            out = numpy.vstack((A, [A[-1] + v0 * s0], B))
        elif s0 < 0 and s1 > 0:
            m = min(len(A), 121)
            x = P07.crossing(A[-m:], B)
            if len(x) != 1:
                return None
            i, j, q = x[0]
            if math.hypot(*(q - A[-1])) > 3 * dist or math.hypot(*(q - B[0])) > 3 * dist:
                return None
            i += len(A) - m
            e0, e1 = A[i + 1] - A[i], B[j + 1] - B[j]
            sine = abs(e0[0] * e1[1] - e0[1] * e1[0]) / math.hypot(*e0) / math.hypot(*e1)
            if sine < 0.1 or m < len(lines[k]) or i <= len(A) - m:
                return None
            kinds.add("inner corner")
            slack = max(slack, 1.5 * tol / sine)
            out = numpy.vstack((A[: i + 1], [q], B[j + 1 :]))
        else:
            return None
    sag = max(float(numpy.hypot(*numpy.diff(c, 2, axis=0).T).max()) / 4 for c in lines)
    return out, slack + sag, kinds


def robust(case, ctx):
    x, widths, offsets, end, tol, layers, datatypes, ops, props, wt, units = case
    n = len(widths)
    props = props or []
    ops = [(op[0], None, op[2][:n] if isinstance(op[2], list) else op[2]) + tuple(op[3:]) if op[0] in P06.CALLS else op for op in ops]
    first = next((i for i, op in enumerate(ops) if op[0] in P06.CALLS and op[0] != "turn"), len(ops))
    ops = [op for i, op in enumerate(ops) if (i >= first or op[0] != "turn") and op[0] != "query"]
    kw = dict(tolerance=tol, ends=end, layer=layers, datatype=datatypes, gdsii_path=True, max_points=0)
    if not wt:
        kw["width_transform"] = False
    path = gdspy.RobustPath(x, list(widths), list(offsets), **kw)
    for a, v in props:
        path.properties[a] = v
    m = rm.Model(x, widths, offsets, keep=not wt)
    k = units[0] / units[1]
    with numpy.errstate(all="ignore"), warnings.catch_warnings(record=True) as notes:
        warnings.simplefilter("always")
        rm.play(path, m, ops, ctx)
        if not m.pieces[0]:
            ensure(write(path, units) == [], "an empty path was written")
            return
        assume(numpy.isfinite(m.x).all())
        lines = [middle(ps, tol) for ps in m.pieces]
        big = 1 + max(float(numpy.abs(c[0]).max()) for c in lines if c is not None) if any(c is not None for c in lines) else 1
        if None in lines or big * k > 2e9:
            # paths that are not numbers cannot be written
            ctx.label("not judged")
            if None in lines:
                return
            return
        els = write(path, units)
    unsure = any("ntersection" in str(w.message) or "join" in str(w.message) for w in notes)
    total = 1.0
    for op in ops:
        if op[0] == "scale":
            total *= op[1]
        elif op[0] == "transform" and op[3] is not None:
            total *= op[3]
    ends = P03.cycle(end, n)
    ends = [tuple(e * total for e in en) if isinstance(en, tuple) else en for en in ends]
    tags = list(zip(P03.cycle(layers, n), P03.cycle(datatypes, n)))
    records(els, n, tags, m.w, not wt, ends, props, k)
    if unsure:
        ctx.label("join not ensured")
        return
    for e, (c, slack, kinds) in zip(els, lines):
        xy = numpy.array(e["xy"], dtype=float).reshape(-1, 2) / k
        lim = 0.75 / k + 2.3 * tol + 2 * slack + 1e-6 * big
        d = apart(xy, c)
        ensure(d <= lim, "centre line off by", d, "limit", lim)
        near = 0.75 / k + 1e-6 * big
        ensure(max(numpy.hypot(*(xy[0] - c[0])), numpy.hypot(*(xy[-1] - c[-1]))) <= near, "ends of the centre line")
        ctx.label(*kinds)
    if len(ops) > 1 or any(offsets):
        ctx.nt()


rare = Rare()


def near(case):
    x, widths, offsets, end, tol, layers, datatypes, ops, props, wt, units = case
    for d in (0.011, -0.013):
        yield (x, widths, [o + d * (i + 1) for i, o in enumerate(offsets)], end, tol * (1 + d), layers, datatypes, ops, props, wt, units)


def check_robust(case, ctx):
    rare(robust, case, ctx, near)


def check_long(case, ctx):
    """Paths with more points than a record holds."""
    n, step, kind, props, units = case
    i = numpy.arange(n)
    pts = numpy.column_stack([(i // 2) * step, ((i + 1) // 2 % 2) * 0.5])
    with warnings.catch_warnings(record=True) as notes:
        warnings.simplefilter("always")
        if kind == "flex":
            path = gdspy.FlexPath(pts, 0.1, gdsii_path=True)
        elif kind == "corners":
            path = gdspy.RobustPath(pts[0], 0.1, gdsii_path=True)
            for p in pts[1:]:
                path.segment(p)
        else:
            f = lambda u: numpy.array([10 * math.cos(40 * u) * (1 + u), 10 * math.sin(40 * u) * (1 + u)])
            path = gdspy.RobustPath((0, 0), 0.1, gdsii_path=True, tolerance=6000 / n ** 2, max_evals=4 * n)
            path.parametric(f, relative=False)
        for a, v in props or []:
            path.properties[a] = v
        els = write(path, units)
    ensure(len(els) == 1 and els[0]["props"] == list(props or []), "element")
    xy = numpy.array(els[0]["xy"], dtype=float).reshape(-1, 2)
    k = units[0] / units[1]
    ensure(any("8191" in str(w.message) for w in notes) == (len(xy) > 8191), "warning about", len(xy), "points")
    ensure((els[0]["xy_records"] > 1) == (len(xy) > 8191), "number of records", els[0]["xy_records"], "for", len(xy), "points")
    if kind != "curve":
        ensure(len(xy) == n and numpy.abs(xy - pts * k).max() <= 0.5 + 1e-6, "points of a long path")
    else:
        step = numpy.hypot(*numpy.diff(xy, axis=0).T)
        r = numpy.hypot(*xy.T) / k
        a = numpy.unwrap(numpy.arctan2(xy[:, 1], xy[:, 0]))
        ensure(numpy.abs(r - 10 * (1 + a / 40)).max() <= 1.5 / k + 1e-6, "points of a long curve")
    ctx.nt(len(xy) > 8191)


def check_polygons(case, ctx):
    """Paths that are not simple are written as the polygons they show."""
    kind, case, units = case
    k = units[0] / units[1]
    if kind == "flex":
        pts, wid, off, corners, ends, radius, tol, layer, datatype, props, dup, wt, moves, _, reflect = case
        path = gdspy.FlexPath(pts, list(wid), list(off[0]), bend_radius=radius, layer=layer, datatype=datatype, tolerance=tol, corners=corners, ends=ends)
    else:
        x, wid, off, ends, tol, layer, datatype, ops, props, wt, _ = case
        n = len(wid)
        path = gdspy.RobustPath(x, list(wid), list(off), tolerance=tol, ends=ends, layer=layer, datatype=datatype)
        ops = [(op[0], None, op[2][:n] if isinstance(op[2], list) else op[2]) + tuple(op[3:]) if op[0] in P06.CALLS else op for op in ops]
        first = next((i for i, op in enumerate(ops) if op[0] in P06.CALLS and op[0] != "turn"), len(ops))
        ops = [op for i, op in enumerate(ops) if (i >= first or op[0] != "turn") and op[0] != "query"]
        with numpy.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            rm.play(path, rm.Model(x, wid, off), ops)
    props = props or []
    for a, v in props:
        path.properties[a] = v
    with numpy.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            s = path.to_polygonset()
        except (OverflowError, ValueError):
            assume(False)
        if s is None:
            ensure(write(path, units) == [], "an empty path was written")
            return
        assume(all(numpy.isfinite(p).all() and numpy.abs(p).max() * k < 2e9 for p in s.polygons))
        els = write(path, units)
    want = [(numpy.asarray(p), l, d) for p, l, d in zip(s.polygons, s.layers, s.datatypes) if len(p) > 2]
    ensure(len(els) == len(want), "number of polygons", len(els), "instead of", len(want))
    for e, (p, l, d) in zip(els, want):
        ensure(e["kind"] == "BOUNDARY" and (e["layer"], e["type"]) == (l, d), "polygon", e["kind"], e["layer"], e["type"], "instead of", (l, d))
        xy = numpy.array(e["xy"], dtype=float).reshape(-1, 2)[:-1]
        ensure(len(xy) == len(p) and numpy.abs(xy - p * k).max() <= 0.5 + 1e-6 * (1 + numpy.abs(p).max() * k) * 1e-3, "vertices of a polygon")
        ensure(e["props"] == list(props), "properties of a polygon")
    ctx.nt()


r = st.one_of(st.integers(2, 12), gen.grid(100, 12000))
tag = st.one_of(st.integers(0, 9), st.lists(st.integers(0, 255), min_size=1, max_size=5), st.just([1, 2, 3, 4]))
end = st.one_of(st.sampled_from(["flush", "extended", "round", "smooth"]), st.tuples(P03.ext, P03.ext))
corner = st.sampled_from(["natural", "natural", "circular bend"])
center = st.one_of(st.just((0, 0)), P07.pt)
move = st.one_of(
    st.tuples(st.just("translate"), P07.pt), st.tuples(st.just("rotate"), P06.ang, center), st.tuples(st.just("scale"), st.sampled_from([2, 0.5, 1.7, 3]), center)
)


@st.composite
def flexes(draw):
    p = draw(P03.spine())
    n = draw(st.sampled_from([1, 1, 2, 3, 4]))
    off = [draw(st.one_of(st.just([0] * n), st.lists(P03.o, min_size=n, max_size=n)))]
    vo = draw(st.sampled_from([0, 0, 1]))
    for _ in p[1:]:
        off.append([a + draw(gen.grid(-1000, 1000)) for a in off[-1]] if vo else off[-1])
    return (
        p, draw(st.lists(P03.w, min_size=n, max_size=n)), off, draw(st.one_of(corner, st.lists(corner, min_size=1, max_size=4))),
        draw(st.one_of(end, st.lists(end, min_size=1, max_size=4))), draw(st.one_of(r, st.lists(r, min_size=1, max_size=4))), draw(st.sampled_from([0.01, 0.01, 0.1, 0.001])),
        draw(tag), draw(tag), draw(gen.props), draw(st.booleans()) and draw(st.booleans()), draw(st.booleans()), draw(st.lists(move, max_size=3)),
        draw(st.sampled_from(UNITS)), False,
    )


@st.composite
def robusts(draw):
    n = draw(st.integers(1, 3))
    return (
        draw(P07.pt), draw(st.lists(P07.w1, min_size=n, max_size=n)), draw(st.one_of(st.just([0] * n), st.lists(P07.o1, min_size=n, max_size=n))),
        draw(st.one_of(end, st.lists(end, min_size=1, max_size=3))), draw(st.sampled_from([0.01, 0.03, 0.1])), draw(tag), draw(tag),
        draw(P07.ops), draw(gen.props), draw(st.booleans()), draw(st.sampled_from(UNITS)),
    )


longs = st.tuples(
    st.one_of(st.integers(8150, 8230), st.sampled_from([8190, 8191, 8192, 16382, 16383, 17000])), st.sampled_from([1, 2]), st.sampled_from(["flex", "corners", "curve"]),
    gen.props, st.sampled_from(UNITS[:3]),
)
SUBS = [
    Sub("flexible", flexes(), check_flex, 3000),
    Sub("robust", robusts(), check_robust, 500),
    Sub("long", longs, check_long, 20),
    Sub("polygons", st.one_of(st.tuples(st.just("flex"), flexes(), st.sampled_from(UNITS)), st.tuples(st.just("flex"), flexes(), st.sampled_from(UNITS)), st.tuples(st.just("robust"), robusts(), st.sampled_from(UNITS))), check_polygons, 500),
]
