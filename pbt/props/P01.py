"""Polygonal paths built from pieces."""
import math

import gdspy
import gen
import numpy
import oracle
import strokes
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Histories of up to 7 calls on a path of 1 to 4 parallel elements: segments, arcs, turns, parametric and Bezier curves with constant, "
    "linear or function width and distance, and translation, rotation, positive scaling and mirroring. Non-trivial: two drawing calls and "
    "more than one element or a transformation.  smooth: the pieces of a smooth curve equal Bezier pieces with the control points of an independent evaluation, each with its own final width and distance.  fineness: the outer edges of arcs of up to 15 elements stay within the tolerance of the ideal ones."
)
ASSUMPTIONS = [
    "widths stay positive at one end at least; curves have a non-zero derivative",
    "the region of an element is compared piecewise, only where its borders do not fold back (width below twice the radius of curvature)",
    "after scaling, later pieces have the width and distance scaled by the horizontal factor, and the direction is kept, as documented",
    "after mirroring, parallel elements get the same layer (known finding)",
]


def expect_tags(value, n):
    return [value[i % len(value)] for i in range(n)] if isinstance(value, list) else [value] * n


class Model:
    def __init__(self, width, point, n, distance):
        self.p = numpy.array(point, dtype=float)
        self.w, self.d, self.n = width / 2, distance, n
        self.a = 0.0
        self.length = 0.0
        self.mirrored = False


def region(new, tags, m, piece, offs, halves, dev, ctx, what):
    """Compare the new polygons (with tags) with the bands of all elements."""
    bands = [piece.band((i - (m.n - 1) / 2) * offs, halves) for i in range(m.n)]
    groups = {}
    for i, (left, right, ok) in enumerate(bands):
        g = groups.setdefault(tags[i], [[], True, 0.0])
        g[0].append(piece.outline(left, right))
        g[1] &= ok
        g[2] += float(numpy.hypot(*numpy.diff(left, axis=0).T).sum() + numpy.hypot(*numpy.diff(right, axis=0).T).sum())
    got = {}
    for p, a, b in new:
        got.setdefault((a, b), []).append(p)
    ensure(set(got) == set(groups), what, "tags", sorted(got), "instead of", sorted(groups))
    for tag, (ideal, ok, length) in groups.items():
        if not ok:
            ctx.label("fold not judged")
            continue
        x = oracle.xor_area(ideal, got[tag])
        lim = (dev + (1 + 2 * piece.kmax) * piece.fine) * length + 1e-7 * (1 + length)
        ensure(x <= lim, what, "elements", tag, "differ by area", x, "limit", lim)
    ctx.label("region")


def check(case, ctx):
    width, point, n, distance, ops = case
    path = gdspy.Path(width, point, n, distance) if (n, distance) != (1, 0) else gdspy.Path(width, point)
    m = Model(width, point, n, distance)
    draws = moves = 0
    old = []
    rough = 0.0  # direction left uncertain by a numerical derivative
    for op in ops:
        k = op[0]
        if k in ("translate", "rotate", "scale", "mirror"):
            if k == "translate":
                f = lambda p: p + numpy.array(op[1])
                r = path.translate(*op[1])
            elif k == "rotate":
                f = lambda p: oracle.rot(p, op[1], op[2])
                r = path.rotate(op[1], op[2]) if op[2] != (0, 0) else path.rotate(op[1])
                m.a += op[1]
            elif k == "scale":
                c = numpy.array(op[3], dtype=float)
                s = numpy.array([op[1], op[2] or op[1]], dtype=float)
                f = lambda p: (p - c) * s + c
                r = path.scale(op[1], op[2], op[3]) if op[3] != (0, 0) else path.scale(op[1], op[2])
                m.w *= op[1]
                m.d *= op[1]
                m.length *= op[1]
            else:
                a, b = (numpy.array(q, dtype=float) for q in op[1:])
                u = (b - a) / numpy.hypot(*(b - a))
                f = lambda p: a + 2 * numpy.outer((p - a) @ u, u) - (p - a)
                r = path.mirror(*op[1:])
                m.a = 2 * math.atan2(u[1], u[0]) - m.a
                m.mirrored = True
            ensure(r is path, "chaining")
            m.p = f(m.p.reshape(1, 2))[0]
            old = [(f(p), a, b) for p, a, b in old]
            moves += 1
            new = []
        else:
            layer, datatype = op[1]
            if m.mirrored and n > 1:
                layer, datatype = 3, 4
            kw = {}
            if layer != 0:
                kw["layer"] = layer
            if datatype != 0:
                kw["datatype"] = datatype
            fw, fd = op[2], op[3]
            w0, d0 = m.w, m.d
            wf = lambda u: w0
            df = lambda u: d0
            if isinstance(fw, tuple):
                if k in ("segment", "arc", "turn"):
                    fw = abs(fw[0])
                else:
                    # starts at the current width
                    c1, c2 = fw
                    wf = lambda u, w0=w0: w0 * (1 + c1 * u + c2 * u * u)
                    kw["final_width"] = lambda u: 2 * wf(u)
                    m.w = wf(1)
                    fw = None
            if isinstance(fd, tuple):
                if k in ("segment", "arc", "turn"):
                    fd = fd[0]
                else:
                    c3 = fd[1]
                    df = lambda u, d0=d0: d0 + c3 * u * u
                    kw["final_distance"] = df
                    m.d = df(1)
                    fd = None
            if fw is not None:
                if w0 == 0 and fw == 0:
                    m.w, m.d = w0, d0
                    continue
                kw["final_width"] = fw
                m.w = fw / 2
                wf = lambda u: w0 + (fw / 2 - w0) * u
            elif w0 == 0 and "final_width" not in kw:
                m.w, m.d = w0, d0
                continue
            if fd is not None:
                kw["final_distance"] = fd
                m.d = fd
                df = lambda u: d0 + (fd - d0) * u
            if w0 == 0 and m.w == 0:
                m.w, m.d = w0, d0
                continue
            reach = max(abs(d0), abs(m.d)) * (n - 1) / 2 + max(w0, m.w)
            maxp = 0
            dev = 1e-9
            lentol = 1e-9
            npieces = 1
            da = 0.0
            if k == "segment":
                _, _, _, _, length, direction, ao = op
                if direction is not None:
                    m.a = strokes.angle_of(direction)
                    rough = 0.0
                    if ao:
                        kw["axis_offset"] = ao
                    r = path.segment(length, direction, **kw)
                else:
                    if ao:
                        kw["axis_offset"] = ao
                    r = path.segment(length, **kw)
                c, s = math.cos(m.a), math.sin(m.a)
                start = m.p
                end = start + numpy.array([length * c + ao * s, length * s - ao * c])
                # the section is sheared, its ends stay perpendicular to the direction
                piece = strokes.Piece(lambda u: start + (end - start) * u, lambda u: numpy.array([c, s]), 1)
                m.p = end
                m.length += math.hypot(length, ao)
            elif k in ("arc", "turn"):
                radius, a, b, tol, npts, maxp = op[4:]
                radius = radius + reach * 1.05
                if npts:
                    kw["number_of_points"] = npts
                elif tol != 0.01:
                    kw["tolerance"] = tol
                if maxp != 199:
                    kw["max_points"] = maxp
                if k == "arc":
                    a1 = a + b
                    r = path.arc(radius, a, a1, **kw)
                else:
                    turn = {"l": math.pi / 2, "r": -math.pi / 2, "ll": math.pi, "rr": -math.pi}.get(a, a)
                    b = turn
                    r = path.turn(radius, a, **kw)
                    a = m.a - math.copysign(math.pi / 2, turn)
                    a1 = a + turn
                centre = m.p - radius * numpy.array([math.cos(a), math.sin(a)])
                piece = strokes.Piece(*strokes.arc(centre, radius, a, a1), m=max(20, min(120, int(abs(b) * 25))))
                m.p = piece.p[-1].copy()
                m.a = a1 + math.copysign(math.pi / 2, b)
                m.length += abs(b) * radius
                if k == "arc":
                    rough = 0.0
                # chords: up to two points of each polygon may be lost to rounding
                ro = radius + reach
                per = npts / 2 - 1 if npts else max(2, abs(b) / (2 * math.acos(max(-1, 1 - tol / ro))))
                npieces = -(-int(2 * per + 2) // maxp) if maxp else 1
                q = max(1, per / npieces - 1.5)
                step = abs(b) / npieces / q
                dev = ro * (1 - math.cos(min(math.pi, step / 2))) + (abs(m.w - w0) + abs(m.d - d0) * (n - 1) / 2) * step / 3
                lentol = 1e-9
            else:
                tol, nev, maxp = op[5:8]
                if tol != 0.01:
                    kw["tolerance"] = tol
                if nev != 5:
                    kw["number_of_evaluations"] = nev
                if maxp != 199:
                    kw["max_points"] = maxp
                numeric = False
                if k == "bezier":
                    rel = op[8]
                    pts = numpy.array(op[4], dtype=float)
                    f, g = strokes.bezier(numpy.vstack([[(0, 0)], pts]) + m.p)
                    args = pts if rel else pts + m.p
                    if not rel:
                        kw["relative"] = False
                    call = lambda: path.bezier([tuple(q) for q in args], **kw)
                else:
                    rel, numeric = op[8:10]
                    f0, g = strokes.poly(op[4])
                    start = m.p.copy()
                    f = lambda u: f0(u) + start
                    if not rel:
                        kw["relative"] = False
                    fun = f0 if rel else f
                    call = lambda: path.parametric(fun, **kw) if numeric else path.parametric(fun, g, **kw)
                piece = strokes.Piece(f, g, 60)
                if piece.minspeed < 0.2 * piece.length or piece.length < 1 or piece.kmax * piece.length > 12:
                    # (nearly) stationary or very sharp curves
                    m.w, m.d = w0, d0
                    continue
                r = call()
                m.p = piece.p[-1].copy()
                m.a = math.atan2(piece.t[-1][1], piece.t[-1][0])
                m.length += piece.length
                lentol = 0.03 * piece.length + 1e-9
                dev = 2 * tol * (1 + 2 * reach * piece.kmax) + 2 * piece.fine
                if callable(kw.get("final_width")) or callable(kw.get("final_distance")):
                    # functions are only sampled where the spine is
                    dev += 0.06 * reach * (nev <= 4 and 4 or 1)
                rough = 0.0
                if numeric:
                    ds = piece.speed.max() / (nev - 1) / 2
                    rough = 1.2 * piece.kmax * ds + 0.02
                    dev += min(rough, 1.0) * reach
                    # the step follows the finest interval, seen in the outline
                    for p in path.polygons[len(old):] if n == 1 else ():
                        p = numpy.asarray(p)
                        if len(p) % 2 == 0 and len(p) > 4:
                            mid = (p[: len(p) // 2] + p[: len(p) // 2 - 1 : -1]) / 2
                            h = numpy.hypot(*numpy.diff(mid, axis=0).T).min() / max(piece.minspeed, 1e-9)
                            rough = min(rough, 0.45 * piece.kmax * piece.speed.max() * h + 0.02)
                            ctx.label("numerical step")
                    rough = min(rough, 1.0)
            ensure(r is path, "chaining")
            us = piece.u
            new = [(numpy.asarray(path.polygons[j]), path.layers[j], path.datatypes[j]) for j in range(len(old), len(path.polygons))]
            if maxp >= 4:
                ensure(all(len(p) <= maxp for p, _, _ in new), op, "vertices", [len(p) for p, _, _ in new], "limit", maxp)
            tags = list(zip(expect_tags(layer, n), expect_tags(datatype, n)))
            region(new, tags, m, piece, numpy.array([df(u) for u in us]), numpy.array([wf(u) for u in us]), dev, ctx, (k,) + tuple(op[1:4]))
            m.lentol = getattr(m, "lentol", 0) + lentol
            draws += 1
            ctx.label(k, *(["pieces"] if len(new) > n else []))
        # what was drawn before has only moved
        ensure(len(path.polygons) == len(path.layers) == len(path.datatypes) == len(old) + len(new), "tags", len(path.polygons))
        scale = max([1.0] + [float(numpy.abs(p).max(initial=0)) for p, _, _ in old] + [float(numpy.abs(m.p).max())])
        for (p, a, b), q, c, d in zip(old, path.polygons, path.layers, path.datatypes):
            ensure((a, b) == (c, d) and oracle.close(p, q, 1e-9 * scale), op[0], "changed earlier polygons")
        old = old + new
        ensure(numpy.abs(m.p - (path.x, path.y)).max() <= 1e-9 * scale, op, "end point", (path.x, path.y), "instead of", m.p)
        m.p = numpy.array([path.x, path.y], dtype=float)
        e = strokes.angle_error(strokes.angle_of(path.direction), m.a)
        ensure(e <= 1e-7 + rough, op, "direction", path.direction, "instead of", m.a)
        m.a = strokes.angle_of(path.direction)
        rough = 0.0
        ensure(abs(path.length - m.length) <= 1e-9 * scale + getattr(m, "lentol", 0), op, "length", path.length, "instead of", m.length)
        m.length = path.length
        m.lentol = 0
        ensure(abs(path.w - m.w) <= 1e-9 * (1 + m.w) and abs(path.distance - m.d) <= 1e-9 * (1 + abs(m.d)), "width or distance", path.w, path.distance)
        ensure(path.n == n, "number of paths")
    ctx.nt(draws > 1 and (n > 1 or moves > 0))


def check_smooth(case, ctx):
    """A smooth curve is the sequence of its Bezier pieces, each with its own
    width and distance."""
    n, w0, d0, start, turns, pts, angles, extra, cycle, rel, fws, fds, tags_, (tl, ne, mp) = case
    count = len(pts) + (1 if cycle else 0)
    sizes = [math.dist(p, q) for p, q in zip([(0, 0)] + pts, pts + ([(0, 0)] if cycle else []))]
    if min(sizes) < 0.1:
        return
    take = lambda v, i: v[i % len(v)]

    def width_of(i):
        v = take(fws, i)
        return (lambda u: 1 + v[0] * u) if isinstance(v, tuple) else v

    def dist_of(i):
        v = take(fds, i)
        return (lambda u: 2 + v[1] * u * u) if isinstance(v, tuple) else v

    ang = None if angles is None else [take(angles, i) for i in range(len(pts) + 1)]
    kw = dict(layer=tags_[0], datatype=tags_[1], tolerance=tl, number_of_evaluations=ne, max_points=mp)
    a, b = (gdspy.Path(w0, start, n, d0) for _ in range(2))
    if turns:
        a.segment(5, "+y")
        b.segment(5, "+y")
    here = numpy.array([a.x, a.y])
    # the control points, as another class of paths sees them
    r = gdspy.RobustPath(tuple(here), 0.01).smooth(pts, ang, cycle=cycle, relative=True, **extra)
    ctl = [[FIT @ numpy.array([r(i + u)[0] for u in US])] for i in range(count)]
    big = 1 + float(numpy.abs(ctl).max())
    if not numpy.isfinite(big) or big > 1000:
        return
    skw = {}
    if fws != [None]:
        skw["final_widths"] = [width_of(i) for i in range(count)]
    if fds != [None]:
        skw["final_distances"] = [dist_of(i) for i in range(count)]
    ret = a.smooth([tuple(q) for q in (pts if rel else numpy.array(pts, dtype=float) + here)], angles=ang, cycle=cycle, relative=rel, **extra, **skw, **kw)
    ensure(ret is a, "chaining")
    for i, (q,) in enumerate(ctl):
        b.bezier([tuple(v) for v in q[1:]], final_width=width_of(i), final_distance=dist_of(i), relative=False, **kw)
    ensure(len(a.polygons) == len(b.polygons) and (a.layers, a.datatypes) == (b.layers, b.datatypes), "polygons", len(a.polygons), "instead of", len(b.polygons))
    for k in ("x", "y", "length", "w", "distance"):
        ensure(abs(getattr(a, k) - getattr(b, k)) <= 1e-6 * big, k, getattr(a, k), "instead of", getattr(b, k))
    ensure(strokes.angle_error(strokes.angle_of(a.direction), strokes.angle_of(b.direction)) <= 1e-6, "direction", a.direction, "instead of", b.direction)
    for p, q in zip(a.polygons, b.polygons):
        if len(p) != len(q):
            ctx.label("sampled otherwise")
            continue
        ensure(float(numpy.abs(p - q).max()) <= 1e-4 * big, "polygon of a piece")
    ctx.nt(count > 1 and ("final_widths" in skw or "final_distances" in skw))


def fineness(case, ctx):
    """Arcs follow the requested tolerance on the outermost edge of every
    element, as they widen and spread."""
    n, w0, w1, d0, d1, extra, a, b, tol, turn, maxp = case
    reach = max(w0, w1) / 2 + max(d0, d1) * (n - 1) / 2
    radius = reach * 1.02 + extra
    if radius < 0.1 or tol > 0.02 * (radius + reach):
        return
    path = gdspy.Path(w0, (1, 2), n, d0)
    kw = {} if maxp == 199 else {"max_points": maxp}
    if turn:
        path.direction = a + math.copysign(math.pi / 2, b)
        path.turn(radius, b, final_width=w1, final_distance=d1, tolerance=tol, **kw)
    else:
        path.arc(radius, a, a + b, final_width=w1, final_distance=d1, tolerance=tol, **kw)
    centre = numpy.array([1, 2]) - radius * numpy.array([math.cos(a), math.sin(a)])
    side = math.copysign(1, b)
    pieces = len(path.polygons) // n
    ensure(pieces * n == len(path.polygons) and pieces > 0, "polygons", len(path.polygons))
    worst = 0.0
    for j, p in enumerate(path.polygons):
        i, k = j % n, j // n
        q = numpy.asarray(p) - centre
        r = numpy.hypot(*q.T)
        t = numpy.unwrap(numpy.arctan2(q[:, 1], q[:, 0]))
        for e in (1, -1):
            # edges of the ideal element through the vertices on its side
            f = lambda u, e=e: radius + side * (i - (n - 1) / 2) * (d0 + (d1 - d0) * u) + e * (w0 + (w1 - w0) * u) / 2
            if min(f(0), f(1)) < 0.5 * (radius + reach):
                continue
            u = (numpy.angle(numpy.exp(1j * (t - a - b * (k + 0.5) / pieces))) + b * (k + 0.5) / pieces) / b
            on = numpy.abs(r - f(u)) <= 1e-6 * (1 + radius)
            pairs = on & numpy.roll(on, -1) & (numpy.abs(numpy.roll(u, -1) - u) > 1e-9)
            ensure(pairs.any(), "no edge of element", i, "piece", k, "follows the arc")
            un = numpy.roll(u, -1)[pairs]
            u = u[pairs]
            for g in (0.25, 0.5, 0.75):
                v = u + (un - u) * g
                m = q[pairs] * (1 - g) + numpy.roll(q, -1, axis=0)[pairs] * g
                m2 = numpy.arctan2(m[:, 1], m[:, 0])
                v = (numpy.angle(numpy.exp(1j * (m2 - a - b * v))) + b * v) / b
                worst = max(worst, float(numpy.abs(numpy.hypot(*m.T) - f(v)).max()))
    slope = (abs(w1 - w0) / 2 + abs(d1 - d0) * (n - 1) / 2) / abs(b) / (radius + reach)
    if slope > 0.3:
        return
    lim = tol * (1.75 + slope + 8 * slope ** 2) * (1.15 if maxp else 1)
    ensure(worst <= lim, "edges deviate by", worst, "with tolerance", tol, "limit", lim)
    ctx.label("turn" if turn else "arc", *(["taper"] if w0 != w1 else []), *(["spread"] if d0 != d1 else []), *(["pieces"] if pieces > 1 else []))
    ctx.nt(n > 1 or w0 != w1)


def mirrored(case, ctx):
    """Known finding: layers of parallel elements after mirroring."""
    path = gdspy.Path(1, (0, 0), 2, 4).segment(5, layer=[1, 2])
    path.mirror((1, 0)).segment(5, layer=[1, 2])
    side = {1: [], 2: []}
    for p, a in zip(path.polygons, path.layers):
        side[a].append(p[:, 1].mean() > 0)
    ensure(side[1][0] == side[1][1], "elements switch layers after mirroring")
    ctx.nt()


c = st.one_of(st.integers(-20, 20), gen.grid(-20000, 20000))
pt = st.tuples(c, c)
width = st.one_of(st.integers(1, 4), gen.grid(50, 4000))
width0 = st.one_of(width, width, st.just(0))
distance = st.one_of(st.integers(0, 8), gen.grid(0, 9000))
tag = st.one_of(st.integers(0, 9), st.lists(st.integers(0, 9), min_size=1, max_size=5), st.just([1, 2, 3, 4]))
tags = st.tuples(tag, tag)
fw = st.one_of(st.none(), st.none(), width0, st.tuples(st.sampled_from([0.5, 1, -0.5]), st.sampled_from([0.5, 1, -0.25])))
fd = st.one_of(st.none(), st.none(), distance, st.tuples(st.sampled_from([1, 2]), st.sampled_from([1, 3])))
named = st.sampled_from(["+x", "-x", "+y", "-y"])
ang = st.one_of(st.sampled_from([math.pi / 2, math.pi, -math.pi / 2, math.pi / 6]), st.integers(-700, 700).map(lambda k: k / 100))
length = st.one_of(st.integers(1, 30), gen.grid(10, 30000))
radius = st.one_of(st.integers(0, 20), gen.grid(0, 20000))
sweep = st.one_of(st.sampled_from([k * math.pi / 2 for k in (-3, -2, -1, 1, 2, 3)]), st.integers(-600, 600).filter(lambda k: abs(k) > 5).map(lambda k: k / 100))
tol = st.sampled_from([0.01, 0.01, 0.001, 0.1])
npts = st.one_of(st.just(0), st.just(0), st.integers(12, 80))
maxp = st.sampled_from([199, 199, 0, 20, 13, 50])
nev = st.sampled_from([5, 5, 9, 4])
d = st.one_of(st.integers(-15, 15), gen.grid(-15000, 15000))
vec = st.tuples(d, d)
fac = st.one_of(st.sampled_from([2, 0.5, 3]), st.integers(200, 3000).map(lambda k: k / 1000))
step = st.tuples(st.integers(2, 12), st.integers(-3, 3)).flatmap(lambda t: st.sampled_from([(t[0], t[1]), (t[1], t[0]), (-t[0], t[1]), (t[1], -t[0])]))
tame = st.tuples(step, st.lists(st.tuples(st.integers(0, 9), st.integers(-6, 6)), min_size=1, max_size=3))


def leaning(t):
    """Control points advancing along the first step, most of the time."""
    (x, y), rest = t
    r = math.hypot(x, y)
    out = [(x, y)]
    for a, b in rest:
        p, q = out[-1]
        out.append((p + (a * x - b * y) / r, q + (a * y + b * x) / r))
    return out


ctrl = st.one_of(tame.map(leaning), tame.map(leaning), st.lists(vec, min_size=2, max_size=4))
coef = st.one_of(tame.map(lambda t: [t[0]] + t[1]), st.lists(vec, min_size=2, max_size=4))
draw = st.one_of(
    st.tuples(st.just("segment"), tags, fw, fd, length, st.one_of(st.none(), named, ang), st.one_of(st.just(0), st.just(0), st.integers(-3, 3))),
    st.tuples(st.just("arc"), tags, fw, fd, radius, ang, sweep, tol, npts, maxp),
    st.tuples(st.just("turn"), tags, fw, fd, radius, st.one_of(st.sampled_from(["l", "r", "ll", "rr"]), sweep), st.just(0), tol, npts, maxp),
    st.tuples(st.just("bezier"), tags, fw, fd, ctrl, tol, nev, maxp, st.booleans()),
    st.tuples(st.just("parametric"), tags, fw, fd, coef, tol, nev, maxp, st.booleans(), st.booleans()),
)
move = st.one_of(
    st.tuples(st.just("translate"), pt),
    st.tuples(st.just("rotate"), ang, st.one_of(st.just((0, 0)), pt)),
    st.tuples(st.just("scale"), fac, st.one_of(st.none(), st.none(), fac), st.one_of(st.just((0, 0)), pt)),
    st.tuples(st.just("mirror"), pt, pt).filter(lambda t: math.hypot(t[1][0] - t[2][0], t[1][1] - t[2][1]) > 0.5),
)
US = [0, 0.25, 0.5, 0.75]
FIT = numpy.linalg.inv([[(1 - u) ** 3, 3 * u * (1 - u) ** 2, 3 * u * u * (1 - u), u ** 3] for u in US])
smooth = st.tuples(
    st.integers(1, 4), width, distance, pt, st.booleans(), st.lists(vec, min_size=1, max_size=4),
    st.one_of(st.none(), st.lists(st.one_of(st.none(), st.integers(-300, 300).map(lambda k: k / 100)), min_size=1, max_size=4)),
    st.fixed_dictionaries({}, optional={"curl_start": st.sampled_from([0, 1, 2]), "curl_end": st.sampled_from([0, 1, 3]), "t_in": st.sampled_from([1, 2, 0.8]), "t_out": st.sampled_from([1, 1.5, 3])}),
    st.booleans(), st.booleans(),
    st.one_of(st.just([None]), st.lists(st.one_of(st.none(), width, st.tuples(st.sampled_from([0.5, 1]), st.just(0))), min_size=1, max_size=4)),
    st.one_of(st.just([None]), st.lists(st.one_of(st.none(), distance, st.tuples(st.just(0), st.sampled_from([1, 3]))), min_size=1, max_size=4)),
    tags, st.tuples(tol, nev, maxp),
)
wide = st.integers(1, 400).map(lambda k: k / 20)
fine = st.tuples(
    st.sampled_from([1, 2, 3, 8, 15]), wide, wide, wide, wide, st.sampled_from([0.01, 0.5, 3, 20]), ang, sweep,
    st.sampled_from([0.1, 0.03, 0.01, 0.003]), st.booleans(), st.sampled_from([199, 0, 0]),
)
ops = st.lists(st.one_of(draw, draw, draw, move), min_size=2, max_size=7)

SUBS = [
    Sub("history", st.tuples(width, pt, st.sampled_from([1, 1, 2, 2, 3, 4]), distance, ops), check, 2400),
    Sub("smooth", smooth, check_smooth, 700),
    Sub("fineness", fine, fineness, 900),
    Sub("mirrored", st.just("mirrored"), mirrored, 0, 0),
]
