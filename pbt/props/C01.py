"""Curves drawn with the primitives of SVG."""
import math

import gdspy
import gen
import numpy
import oracle
import strokes
from core import Rare, Sub, ensure
from hypothesis import strategies as st

RULE = (
    "1 to 8 drawing calls, absolute or relative, with 1 to 3 pieces each, coordinates as pairs or complex numbers; circular and elliptic arcs "
    "with rotation; several tolerances. Non-trivial: a curved piece or a smooth variant."
)
ASSUMPTIONS = [
    "relative coordinates refer to the end point at the time of the call, also for the later pieces of the call, as in the documentation's examples",
    "elliptic arcs use the angles as the parameter of the ellipse",
    "curves may be off by twice the tolerance between samples; isolated symmetric curves whose bisection points lie on the chord are tolerated up to one per 1000 cases",
]
rare = Rare()


def forms(coords, how):
    """Coordinate pairs as arguments: numbers, complex numbers or a mix."""
    out = []
    for i, (x, y) in enumerate(coords):
        if how == 1 or how == 2 and i % 2:
            out.append(complex(x, y))
        else:
            out += [x, y]
    return out


def draw(curve, ops, how, mode):
    """mode: as recorded, or all absolute ('abs') with shifted coordinates.
    Returns the ideal pieces with the vertices drawn for each call."""
    calls = []
    last_c = last_q = None
    for k, rel, data in ops:
        start = numpy.array(curve.points[-1], dtype=float)
        base = start if rel else numpy.zeros(2)
        n0 = len(curve.points)
        low = rel and mode != "abs"
        shift = base if mode == "abs" else numpy.zeros(2)
        pieces = []
        p = start
        if k in ("H", "V"):
            j = 0 if k == "H" else 1
            r = getattr(curve, k.lower() if low else k)(*[x + shift[j] for x in data])
            for x in data:
                q = start.copy()
                q[j] = base[j] + x
                pieces.append((None, q))
            last_c = last_q = None
        elif k == "arc":
            rad, a0, a1, rot = data
            r = curve.arc(rad, a0, a1, rot) if rot else curve.arc(rad, a0, a1)
            rx, ry = rad if isinstance(rad, tuple) else (rad, rad)

            def e(a, rx=rx, ry=ry, rot=rot):
                x, y = rx * math.cos(a - rot), ry * math.sin(a - rot)
                return numpy.array([x * math.cos(rot) - y * math.sin(rot), x * math.sin(rot) + y * math.cos(rot)])

            f = lambda u, e=e, start=start, a0=a0, a1=a1: start - e(a0) + e(a0 + (a1 - a0) * u)
            pieces.append((f, f(1)))
            last_c = last_q = None
        else:
            abso = [numpy.array(q, dtype=float) + base for q in data]
            args = [tuple(float(v) for v in numpy.array(q) + shift) for q in data]
            r = getattr(curve, k.lower() if low else k)(*forms(args if mode == "abs" else data, how))
            if k == "L":
                pieces = [(None, q) for q in abso]
                last_c = last_q = None
            elif k == "B":
                f = strokes.bezier([start] + abso)[0]
                pieces.append((f, abso[-1]))
                last_c = last_q = None
            else:
                size = {"C": 3, "S": 2, "Q": 2, "T": 1}[k]
                for i in range(0, len(abso), size):
                    g = abso[i : i + size]
                    if k == "S":
                        g = [2 * p - last_c if last_c is not None else p] + g
                    elif k == "T":
                        g = [2 * p - last_q if last_q is not None else p] + g
                    pieces.append((strokes.bezier([p] + g)[0], g[-1]))
                    last_c, last_q = (g[1], None) if k in "CS" else (None, g[0])
                    p = g[-1]
        ensure(r is curve, "chaining", k)
        calls.append((k, pieces, n0))
    return calls


def run(case, ctx):
    start, tol, how, ops = case
    kw = {} if tol == 0.01 else {"tolerance": tol}
    c = gdspy.Curve(complex(*start), **kw) if how == 1 else gdspy.Curve(*start, **kw)
    calls = draw(c, ops, how, "as is")
    pts = numpy.array(c.points, dtype=float)
    big = 1 + float(numpy.abs(pts).max())
    ends = [n0 for _, _, n0 in calls][1:] + [len(pts)]
    for (k, pieces, n0), n1 in zip(calls, ends):
        p, j = pts[n0 - 1], n0
        for i, (f, q) in enumerate(pieces):
            if f is None:
                ensure(numpy.abs(pts[j] - q).max() <= 1e-9 * big, k, "goes to", pts[j], "instead of", q)
                j += 1
            else:
                if i == len(pieces) - 1:
                    found = [n1]
                else:
                    d = numpy.abs(pts[j:n1] - q).max(axis=1) <= 1e-9 * big
                    found = [int(m) + j + 1 for m in d.nonzero()[0]]
                ensure(found and numpy.abs(pts[found[-1] - 1] - q).max() <= 1e-9 * big, k, "misses the end of a piece", q)
                # the curve may also go through its end before
                for e in found:
                    try:
                        strokes.on_curve(pts[j:e], p, f, tol, k, 2.3, 401)
                        break
                    except AssertionError:
                        if e == found[-1]:
                            raise
                j = e
                ctx.nt()
            p = q
        ensure(j == n1, k, "drew", n1 - n0, "vertices instead of", j - n0)
        ctx.label(k)
    # the same with absolute coordinates and plain numbers
    a = gdspy.Curve(*start, **kw)
    draw(a, ops, 0, "abs")
    b = numpy.array(a.points, dtype=float)
    # adaptive sampling may flip with rounding
    if len(b) == len(pts):
        ensure(numpy.abs(b - pts).max() <= 1e-9 * big, "relative and absolute commands differ")
    else:
        d = max(oracle.edge_distance([b], pts, closed=False).max(), oracle.edge_distance([pts], b, closed=False).max())
        ensure(d <= 2.3 * tol, "relative and absolute commands differ by", d)
    out = c.get_points()
    gap = float(numpy.hypot(*(pts[-1] - pts[0])))
    want = pts[:-1] if gap < tol else pts
    ensure(abs(gap - tol) < 1e-9 or len(out) == len(want) and (numpy.asarray(out) == want).all(), "points returned")
    out[...] = 7
    ensure((numpy.array(c.points, dtype=float) == pts).all(), "the points returned belong to the curve")
    if gap < tol:
        ctx.label("closed")


def near(case):
    start, tol, how, ops = case
    for d in (0.013, -0.017):
        yield (start, tol, how, [(k, r, [(x + d * (i + 1), y - d / (i + 2)) for i, (x, y) in enumerate(data)] if k in "LCSQTB" else data) for k, r, data in ops])


def check(case, ctx):
    rare(run, case, ctx, near)


co = st.one_of(st.integers(-20, 20), gen.grid(-20000, 20000))
pt = st.tuples(co, co)
ang = st.one_of(st.sampled_from([0.0, math.pi / 2, math.pi, -math.pi / 2, 2 * math.pi]), st.integers(-700, 700).map(lambda k: k / 100))
rad = st.one_of(st.integers(1, 20), gen.grid(10, 20000))


@st.composite
def op(draw_):
    k = draw_(st.sampled_from(["L", "H", "V", "C", "C", "S", "S", "Q", "Q", "T", "T", "B", "arc"]))
    rel = draw_(st.booleans())
    if k in "HV":
        return (k, rel, draw_(st.lists(co, min_size=1, max_size=3)))
    if k == "arc":
        a0 = draw_(ang)
        a1 = a0 + draw_(ang.filter(lambda a: a != 0))
        r = draw_(st.one_of(rad, rad, st.tuples(rad, rad)))
        return (k, False, (r, a0, a1, draw_(st.one_of(st.just(0), ang))))
    if k == "B":
        return (k, rel, draw_(st.lists(pt, min_size=1, max_size=5)))
    size = {"L": 1, "C": 3, "S": 2, "Q": 2, "T": 1}[k]
    n = draw_(st.sampled_from([1, 1, 2, 3])) * size
    return (k, rel, draw_(st.lists(pt, min_size=n, max_size=n)))


cases = st.tuples(pt, st.sampled_from([0.01, 0.01, 0.1, 0.003]), st.sampled_from([0, 1, 2]), st.lists(op(), min_size=1, max_size=8))

SUBS = [Sub("drawing", cases, check, 2000)]
