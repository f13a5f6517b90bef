"""Affine transformations of polygons, labels and references."""
import math

import gdspy
import gen
import hier
import numpy
import oracle
from build import set_props, snap
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Histories of up to 10 translations, rotations, scalings, mirrorings and copies over up to 4 objects (polygon sets, polygons, "
    "rectangles, round shapes, text, labels, references, arrays), some built from the same arrays. Non-trivial: at least two transformations "
    "of polygons."
)
ASSUMPTIONS = ["tolerance 1e-9 relative to the coordinates that appear", "mirror lines through two distinct points"]

c = st.one_of(st.integers(-20, 20), gen.grid(-20000, 20000))
pt = st.tuples(c, c)
verts = st.lists(st.one_of(pt, st.tuples(st.integers(-9, 9), st.integers(-9, 9))), min_size=3, max_size=6)
tag = st.integers(0, 9)
obj = st.one_of(
    st.tuples(st.just("set"), st.lists(st.tuples(verts, tag, tag), min_size=1, max_size=3), gen.props),
    st.tuples(st.just("polygon"), verts, tag, tag, gen.props),
    st.tuples(st.just("ints"), st.lists(st.tuples(st.integers(-9, 9), st.integers(-9, 9)), min_size=3, max_size=5), tag, tag, gen.props),
    st.tuples(st.just("rect"), pt, pt, tag, tag),
    st.tuples(st.just("round"), pt, st.integers(1, 9), st.integers(0, 4), st.integers(4, 9), tag, tag),
    st.tuples(st.just("text"), st.text("aB7.", min_size=1, max_size=3), st.integers(1, 20), pt, tag, tag),
    st.tuples(st.just("label"), hier.label),
    st.tuples(st.just("ref"), hier.ref),
    st.tuples(st.just("arr"), hier.arr),
)
idx = st.integers(0, 30)
ang = st.one_of(st.sampled_from([math.pi / 2, math.pi, -math.pi / 2, 0, math.pi / 6]), st.integers(-700, 700).map(lambda k: k / 100))
fac = st.one_of(st.sampled_from([1, 2, -1, 0.5]), st.integers(-3000, 3000).filter(bool).map(lambda k: k / 1000))
cont = st.sampled_from(["tuple", "list", "array"])
line = st.tuples(pt, pt).filter(lambda t: math.hypot(t[0][0] - t[1][0], t[0][1] - t[1][1]) > 0.5)
op = st.one_of(
    st.tuples(st.just("translate"), idx, pt),
    st.tuples(st.just("rotate"), idx, ang, st.one_of(st.none(), pt), cont),
    st.tuples(st.just("scale"), idx, fac, st.one_of(st.none(), fac), st.one_of(st.none(), pt), cont),
    st.tuples(st.just("mirror"), idx, line, st.booleans(), cont),
    st.tuples(st.just("copy"), idx, st.one_of(st.just((0, 0)), pt)),
    st.tuples(st.just("share"), idx),
)


def wrap(p, k):
    return {"tuple": tuple, "list": list, "array": numpy.array}[k](p)


def create(s, cell):
    k = s[0]
    if k == "set":
        o = gdspy.PolygonSet([p for p, _, _ in s[1]])
        o.layers = [a for _, a, _ in s[1]]
        o.datatypes = [b for _, _, b in s[1]]
        return set_props(o, s[2])
    if k == "polygon":
        return set_props(gdspy.Polygon(s[1], s[2], s[3]), s[4])
    if k == "ints":
        return set_props(gdspy.Polygon(numpy.array(s[1]), s[2], s[3]), s[4])
    if k == "rect":
        return gdspy.Rectangle(*s[1:])
    if k == "round":
        return gdspy.Round(s[1], s[2] + s[3], s[3], number_of_points=2 * s[4], layer=s[5], datatype=s[6])
    if k == "text":
        return gdspy.Text(s[1], s[2], s[3], layer=s[4], datatype=s[5])
    if k == "label":
        return hier.make_label(s[1])
    return hier.make_ref(s[1][:1] + (0,) + s[1][2:], 1, [cell])


def state(o):
    """(vertex lists that move, everything else)."""
    if isinstance(o, gdspy.Label):
        rest = [(n, v) for n, v in snap(o)[1:] if n != "position"]
        return [numpy.array([o.position], dtype=float)], rest
    if isinstance(o, (gdspy.CellReference, gdspy.CellArray)):
        rest = [(n, v) for n, v in snap(o)[1:] if n != "origin"]
        return [numpy.array([o.origin], dtype=float)], rest
    rest = [(n, v) for n, v in snap(o)[1:] if n != "polygons"]
    return [numpy.array(p, dtype=float) for p in o.polygons], rest


def check(case, ctx):
    specs, ops = case
    cell = gdspy.Cell("LEAF")
    cell.add(gdspy.Rectangle((1, 2), (3, 4)))
    inside = snap(cell, True)
    objs = [create(s, cell) for s in specs]
    model = [state(o) for o in objs]
    big = [1.0]
    moves = 0

    def compare(what):
        for k, (o, m) in enumerate(zip(objs, model)):
            p, rest = state(o)
            ensure(rest == m[1], what, "other attributes of object", k, rest, m[1])
            ensure(len(p) == len(m[0]), what, "polygons", len(p))
            tol = 1e-9 * max(big)
            for a, b in zip(p, m[0]):
                ensure(a.shape == b.shape and numpy.abs(a - b).max(initial=0) <= tol, what, "object", k, a.tolist(), b.tolist())

    for t in ops:
        k = t[1] % len(objs)
        o = objs[k]
        poly = isinstance(o, gdspy.PolygonSet)
        if t[0] == "copy":
            if len(objs) > 6:
                continue
            new = gdspy.copy(o, *t[2]) if t[2] != (0, 0) else gdspy.copy(o)
            ensure(new is not o and type(new) is type(o), "copy")
            objs.append(new)
            model.append(([p + numpy.array(t[2]) for p in model[k][0]], state(new)[1] if not poly else model[k][1]))
            big.append(max(float(numpy.abs(p).max()) for p in model[-1][0]))
        elif t[0] == "share":
            if not poly or len(objs) > 6:
                continue
            # another object made from the arrays of this one
            new = gdspy.PolygonSet(o.polygons, 1, 2)
            objs.append(new)
            model.append(([p.copy() for p in model[k][0]], state(new)[1]))
        else:
            if t[0] != "translate" and not poly:
                continue
            # the transformation about the origin, then the same with options
            if t[0] == "translate":
                f = lambda p: p + numpy.array(t[2])
                r = o.translate(*t[2])
            elif t[0] == "rotate":
                z = t[3] or (0, 0)
                f = lambda p: oracle.rot(p, t[2], z)
                r = o.rotate(t[2]) if t[3] is None else o.rotate(t[2], wrap(t[3], t[4]))
            elif t[0] == "scale":
                z = numpy.array(t[4] or (0, 0), dtype=float)
                s = numpy.array([t[2], t[2] if t[3] is None else t[3]], dtype=float)
                f = lambda p: (p - z) * s + z
                if t[4] is None:
                    r = o.scale(t[2]) if t[3] is None else o.scale(t[2], t[3])
                else:
                    r = o.scale(t[2], t[3], wrap(t[4], t[5]))
            else:
                a, b = (numpy.array(q, dtype=float) for q in t[2])
                if t[3]:
                    if numpy.abs(a).max() < 0.5:
                        continue
                    b = numpy.zeros(2)
                u = (b - a) / numpy.hypot(*(b - a))
                f = lambda p: a + 2 * numpy.outer((p - a) @ u, u) - (p - a)
                r = o.mirror(wrap(t[2][0], t[4])) if t[3] else o.mirror(wrap(t[2][0], t[4]), wrap(t[2][1], t[4]))
            ensure(r is o, t[0], "returns the object")
            model[k] = ([f(p) for p in model[k][0]], model[k][1])
            big.append(max(float(numpy.abs(p).max(initial=1)) for p in model[k][0]))
            moves += poly
            ctx.label(t[0])
        compare(t)
    ensure(snap(cell, True) == inside, "referenced cell changed")
    ctx.nt(moves > 1)


SUBS = [Sub("history", st.tuples(st.lists(obj, min_size=1, max_size=4), st.lists(op, min_size=1, max_size=10)), check, 4000)]
