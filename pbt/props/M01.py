"""Inputs are neither changed nor aliased; calls can be chained."""
import io
import math
import os
import tempfile
import warnings

import gdspy
import gen
import hier as H
import numpy
from build import CACHES, snap, snap_cell
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "queries: random hierarchies and loose elements of every kind, then a random list of queries, operations, copies and writers; everything is "
    "described in full before and after each, the result is then overwritten in place (arrays, lists, dictionaries and attributes, as deep as they "
    "go) and everything compared again, and the query repeated.  arguments: elements built by random calls from lists and arrays, which are "
    "overwritten afterwards; the element must not change, nor the arguments when the element is transformed.  Non-trivial: the result held "
    "something to overwrite, or an argument was a mutable object."
)
ASSUMPTIONS = [
    "by design cells returned by queries are the cells themselves, and copies of cells without deep_copy share their elements",
    "elements added to cells are kept, not copied, as documented",
]


def scramble(o, seen, cells=()):
    """Overwrites an object in place; number of things overwritten."""
    if id(o) in seen:
        return 0
    seen[id(o)] = o
    n = 0
    if isinstance(o, numpy.ndarray):
        if o.flags.writeable and o.size:
            if o.dtype == object:
                for x in o.flat:
                    n += scramble(x, seen)
            else:
                o[...] = o * 3 + 777 if o.dtype != bool else ~o
                n += 1
        return n
    if isinstance(o, (list, tuple)):
        for x in o:
            n += scramble(x, seen, cells)
        if isinstance(o, list):
            o.reverse()
            for i, x in enumerate(o):
                if isinstance(x, (int, float)):
                    o[i] = x * 3 + 777
            o.append(-999)
            n += 1
        return n
    if isinstance(o, dict):
        for x in list(o.values()):
            n += scramble(x, seen, cells)
        o.clear()
        o["junk"] = 1
        return n + 1
    if isinstance(o, set):
        for x in list(o):
            n += scramble(x, seen, cells)
        o.clear()
        return n + 1
    if isinstance(o, gdspy.Cell) and id(o) not in cells:
        return n
    if type(o).__module__.startswith("gdspy") and not callable(o) or isinstance(o, (gdspy.path._SubPath, gdspy.RobustPath)):
        for a in attributes(o):
            v = getattr(o, a)
            n += scramble(v, seen, cells)
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                setattr(o, a, v * 3 + 777)
                n += 1
    return n


def attributes(o):
    names = []
    for cls in type(o).__mro__:
        s = cls.__dict__.get("__slots__", ())
        names += [s] if isinstance(s, str) else list(s)
    names += list(getattr(o, "__dict__", {}))
    return [a for a in names if hasattr(o, a) and a != "ref_cell"]


def plain(x):
    """Results as comparable data: cells by name and content."""
    return repr(snap(x, isinstance(x, (gdspy.CellReference, gdspy.CellArray))))


LOOSE = {
    "path": lambda: gdspy.Path(2, (1, 2), 2, 5).segment(10, "+x", 1, layer=[1, 2]).turn(4, "l", number_of_points=0.1),
    "polypath": lambda: gdspy.PolyPath([(0, 0), (10, 0), (10, 12)], [1, 2], 2, 4, layer=[0, 3]),
    "l1path": lambda: gdspy.L1Path((0, 0), "+x", 2, [10, 10, 5], [1, -1], 2, 4),
    "text": lambda: gdspy.Text("i+", 10, (3, 3)),
    "round": lambda: gdspy.Round((2, 2), 5, 2, tolerance=0.05, layer=2),
    "rectangle": lambda: gdspy.Rectangle((0, 0), (4, -3), layer=1),
    "set": lambda: gdspy.PolygonSet([[(0, 0), (4, 0), (2, 3)], [(1, 1), (6, 1), (6, 2), (1, 2)]], 1, 2),
    "flex": lambda: gdspy.FlexPath([(0, 0), (10, 0), (10, 10)], [1, 2], 3, corners="round", ends=["extended", (1, 2)], layer=[1, 2]),
    "bends": lambda: gdspy.FlexPath([(0, 0), (20, 0), (20, 20)], 1, corners="circular bend", bend_radius=3, gdsii_path=True),
    "robust": lambda: gdspy.RobustPath((0, 0), [1, 2], [-2, 2], layer=[1, 2], datatype=[3, 0]).segment((10, 0), width=[2, 1]).turn(8, "r", offset=1),
    "curvy": lambda: gdspy.RobustPath((0, 0), 1).bezier([(5, 0), (8, 3), (10, 10)]).smooth([(20, 5), (25, 0)]),
    "bars": lambda: gdspy.RobustPath((0, 0), 1, gdsii_path=True, width_transform=False).segment((10, 5)).arc(5, 0, 2),
    "points": lambda: [[(0, 0), (5, 0), (5, 5)], numpy.array([(1.0, 1.0), (7.0, 2.0), (3.0, 8.0)])],
    "mixed": lambda: [gdspy.Rectangle((0, 0), (2, 2)), [(1, 1), (5, 1), (3, 6)], gdspy.FlexPath([(0, 0), (9, 1)], 1)],
    "one": lambda: gdspy.Polygon([(0, 0), (6, 0), (0, 6)]),
    "array": lambda: numpy.array([[(0.0, 0.0), (3.0, 0.0), (3.0, 3.0)]]),
    "none": lambda: None,
    "empty": lambda: [],
}
OPER = sorted(LOOSE)
ELEMENT = [k for k in OPER if k not in ("points", "mixed", "array", "none", "empty")]
PATHS = ["flex", "bends", "robust", "curvy", "bars"]
OUTSIDE = {
    "label": lambda c: gdspy.Label("t", (1, 2), "nw", 30, 2, True, 3, 4),
    "ref": lambda c: gdspy.CellReference(c, (1, 2), 90, 2, True),
    "arr": lambda c: gdspy.CellArray(c, 2, 1, (30, 20), (1, 2), 90),
}


class World:
    def __init__(self, spec, names):
        self.cells = H.make(spec)
        for c in self.cells:
            for i, r in enumerate(c.references):
                if i % 2 == 0:
                    r.origin = numpy.array(r.origin, dtype=float)
                    if isinstance(r, gdspy.CellArray):
                        r.spacing = numpy.array(r.spacing, dtype=float)
        self.lib = gdspy.GdsLibrary("L")
        for c in self.cells:
            self.lib.add(c)
        self.loose = [LOOSE[k]() for k in names]
        self.refs = [r for c in self.cells for r in c.references if isinstance(r.ref_cell, gdspy.Cell)]

    def operand(self, k):
        """One of the loose objects, references and elements of cells."""
        pool = self.loose + self.refs + [e for c in self.cells for e in c.polygons + c.paths]
        return pool[k % len(pool)]

    def operands(self, ks):
        out = []
        for o in map(self.operand, ks):
            if isinstance(o, (list, tuple, numpy.ndarray)):
                out.extend(o)
            elif o is not None:
                out.append(o)
        return out

    def state(self):
        return repr((
            [snap_cell(c) for c in self.cells], snap(self.loose), self.lib.name, self.lib.unit, self.lib.precision,
            sorted((k, id(v)) for k, v in self.lib.cells.items()),
        ))

    def drawn(self):
        return repr([
            sorted((repr(p.tolist()) for p in c.get_polygons()))
            if all(isinstance(r.ref_cell, gdspy.Cell) for d in [c] + list(c.get_dependencies(True)) for r in d.references) else None
            for c in self.cells
        ] + [None if not isinstance(e, (gdspy.FlexPath, gdspy.RobustPath)) else [p.tolist() for p in e.get_polygons()] for e in self.loose])


def run(w, op):
    """Performs one operation that only looks; (result, copied cells)."""
    k = op[0]
    if k == "boolean":
        args = [None if i is None else w.operands(i) if isinstance(i, tuple) else w.operand(i) for i in op[1:3]]
        given = [list(a) if isinstance(a, list) else a for a in args]
        r = gdspy.boolean(args[0], args[1], op[3], max_points=op[4])
        for a, g in zip(args, given):
            ensure(not isinstance(a, list) or len(a) == len(g) and all(x is y for x, y in zip(a, g)), "list of operands changed")
        return r, ()
    if k == "slice":
        pos = list(op[2])
        r = gdspy.slice(w.operand(op[1]), pos if len(pos) != 1 else pos[0], op[3])
        ensure(pos == list(op[2]), "slice changed the positions")
        return r, ()
    if k == "offset":
        return gdspy.offset(w.operand(op[1]), op[2], join_first=op[3]), ()
    if k == "inside":
        pts = numpy.array(op[2], dtype=float)
        groups = [[(0, 0), (1, 2)], numpy.array(pts)]
        a, b = pts.copy(), repr(groups)
        r = gdspy.inside(groups if op[3] else pts, w.operand(op[1]), "all" if op[3] else "any")
        ensure(numpy.array_equal(a, pts) and b == repr(groups), "inside changed the points")
        return r, ()
    if k == "copy":
        e = w.operand(op[1])
        if not hasattr(e, "translate"):
            return None, ()
        return gdspy.copy(e, op[2], op[3]), ()
    c = w.cells[op[1] % len(w.cells)]
    refs = [r for r in c.references if isinstance(r.ref_cell, gdspy.Cell)]
    q = refs[op[2] % len(refs)] if op[2] and refs else c
    if k == "get":
        if op[3] == "polygons":
            by = op[4]
            if by == "spec":
                # one of the layers and datatypes there are
                specs = [(l, d) for p in c.polygons for l, d in zip(p.layers, p.datatypes)] + [s for p in c.paths for s in zip(p.layers, p.datatypes)]
                specs = specs or sorted(k for k in c.get_polygons(True) if isinstance(k, tuple)) or [(0, 0)]
                by = specs[op[1] % len(specs)]
            return q.get_polygons(by_spec=by, depth=op[5]), ()
        if op[3] == "sets":
            return q.get_polygonsets(depth=op[5]), ()
        if op[3] == "paths":
            return q.get_paths(depth=op[5]), ()
        if op[3] == "labels":
            return q.get_labels(depth=op[5], set_transform=bool(op[4])), ()
        if op[3] == "box":
            return q.get_bounding_box(), ()
        if op[3] == "area":
            return q.area(bool(op[4])), ()
        return [c.get_layers(), c.get_datatypes(), c.get_texttypes(), c.get_svg_classes(), list(c.get_dependencies(bool(op[4])))], ()
    if k == "duplicate":
        how = op[3]
        new = c.copy("NEW", deep_copy=True) if how is None else c.copy("NEW", deep_copy=True, translation=how[0], rotation=how[1], scale=how[2], x_reflection=how[3])
        return new, (id(new),)
    if k == "svg":
        f = io.StringIO()
        c.write_svg(f, style={(0, 0): {"fill": "red"}}, background="white")
        return None, ()
    if k == "gds":
        f = io.BytesIO()
        cells = [w.cells[0], c]
        keep = list(cells)
        w.lib.write_gds(f, cells=cells if op[2] else None)
        ensure(cells == keep, "the list of cells was changed")
        g = io.BytesIO()
        writer = gdspy.GdsWriter(g)
        for d in w.cells:
            writer.write_cell(d)
        writer.close()
        return None, ()
    if k == "lib":
        return [w.lib.top_level(), list(w.lib), str(w.lib), [str(x) for x in w.cells], [str(x) + repr(x) for x in w.refs]], ()
    if k == "path":
        e = w.operand(op[2])
        out = [str(e)]
        if isinstance(e, (gdspy.FlexPath, gdspy.RobustPath)):
            out += [e.get_polygons(True), e.get_polygons(), e.to_polygonset(), e.area(), e.area(True)]
        if isinstance(e, gdspy.PolygonSet):
            out += [e.get_bounding_box(), e.area(), e.area(True)]
        if isinstance(e, gdspy.RobustPath) and len(e):
            u = 0.37 * len(e)
            out += [e(u, 0), e(u, 1), e.grad(u), e.width(u)]
        if hasattr(e, "to_gds"):
            e.to_gds(io.BytesIO(), 1000)
            e.to_svg(io.StringIO(), 10, 3)
        return out, ()
    raise ValueError(k)


def missing(w, op):
    """Whether the operation meets unresolved references."""
    if op[0] in ("boolean", "slice", "offset", "inside"):
        ks = [j for i in (op[1:3] if op[0] == "boolean" else op[1:2]) for j in (i if isinstance(i, tuple) else [] if i is None else [i])]
        es = [w.operand(j) for j in ks]
        cells = [e.ref_cell for e in es if isinstance(e, (gdspy.CellReference, gdspy.CellArray))]
    elif op[0] == "copy" or op[0] == "path":
        return False
    else:
        cells = w.cells
    return any(not isinstance(r.ref_cell, gdspy.Cell) for c in cells for d in [c] + list(c.get_dependencies(True)) for r in d.references)


def check_queries(case, ctx):
    spec, names, ops = case
    if H.size(spec, len(spec) - 1) > 25:
        spec = spec[:2]
    w = World(spec, names)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        state, drawn = w.state(), w.drawn()
        for op in ops:
            if missing(w, op):
                continue
            res, new = run(w, op)
            ensure(w.state() == state, op[0], "changed its inputs")
            before = plain(res) if not new else repr(snap_cell(res))
            n = scramble(res, {}, new)
            ensure(w.state() == state, "overwriting the result of", op[0], "changed the inputs")
            if n:
                ctx.nt()
                ctx.label(op[0] if op[0] != "get" else "get " + op[3])
                ensure(w.drawn() == drawn, "overwriting the result of", op[0], "changed the drawing")
            res, new = run(w, op)
            after = plain(res) if not new else repr(snap_cell(res))
            if op[0] not in ("lib",) and "dependencies" not in op:
                ensure(before == after, op[0], "gives another result after the first was overwritten")


# ------------------------------------------------------------------ arguments


class Args:
    """Hands out lists and arrays and remembers them."""

    def __init__(self, kinds):
        self.kinds = kinds
        self.given = []

    def __call__(self, v, kinds="alt"):
        k = self.kinds[len(self.given) % len(self.kinds)]
        k = kinds[k % len(kinds)]
        if k == "a":
            x = numpy.array(v, dtype=float)
        elif k == "l":
            x = [list(i) if isinstance(i, tuple) and "a" in kinds else i for i in v]
        else:
            x = tuple(v)
        self.given.append((x, repr(x)))
        return x

    def same(self, what):
        for x, r in self.given:
            ensure(repr(x) == r, what, "changed an argument from", r, "to", repr(x))


def points(A, k, n):
    return A([(4 * i + 3 + (k + i) % 3, (k * (i + 1)) % 7 - 3) for i in range(n)])


def construct(kind, A, k, cell):
    lists = "l"
    if kind == "set":
        inner = [points(A, k, 4), points(A, k + 1, 3)]
        A.given.append((inner, repr(inner)))
        return gdspy.PolygonSet(inner, layer=k)
    if kind == "polygon":
        return gdspy.Polygon(points(A, k, 4), k, 2)
    if kind == "rectangle":
        return gdspy.Rectangle(A((k, 1)), A((k + 3, 7)), layer=1)
    if kind == "round":
        return gdspy.Round(A((k, 1)), A((5, 6)), A((2, 3)), tolerance=0.05)
    if kind == "text":
        return gdspy.Text("I i", 9, A((k, 1)))
    if kind == "polypath":
        return gdspy.PolyPath(points(A, 0, 3), A((1, 2), "l"), 2, A((3, 4, 3), "l"), layer=A((1, 2), "l"), datatype=A((3, 4), "l"))
    if kind == "l1path":
        return gdspy.L1Path(A((k, 0)), "+x", 1.5, A((10, 12, 9), "l"), A((1, -1), "l"), 2, 4, layer=A((1, 2), "l"), datatype=A((3, 4), "l"))
    if kind == "path":
        return gdspy.Path(1, A((k, 0)), 2, 4)
    if kind == "flex":
        return gdspy.FlexPath(
            points(A, 0, 2), A((1, 2), lists), A((-2, 2), lists), corners=A(("natural", "bevel"), lists), ends=A(("round", (1, 2)), lists),
            bend_radius=A((1, 2), lists), layer=A((1, 2), lists), datatype=A((3, 4), lists),
        )
    if kind == "robust":
        return gdspy.RobustPath(A((k, 0)), A((1, 2), lists), A((-2, 2), lists), ends=A(("round", (1, 2)), lists), layer=A((1, 2), lists), datatype=A((3, 4), lists))
    if kind == "label":
        return gdspy.Label("t", A((k, 1)), "se", 30)
    if kind == "ref":
        return gdspy.CellReference(cell, A((k, 1)), 30)
    if kind == "arr":
        return gdspy.CellArray(cell, 2, 2, A((40, 50)), A((k, 1)), 30)
    if kind == "curve":
        return gdspy.Curve(*A((k, 1))).L(9, 9)
    raise ValueError(kind)


def extend(o, kind, op, A):
    """One more piece; the value returned, or `o` itself if nothing fits."""
    k, n = op
    if kind == "path":
        lt = dict(layer=A((1, 2), "l"), datatype=A((3, 4), "l"))
        if k == 0:
            return o.segment(5 + n, "+y" if n % 2 else 0.3, **lt)
        if k == 1:
            return o.arc(12, 0, 1 + n / 5, tolerance=0.1, **lt)
        if k == 2:
            return o.turn(12, "l" if n % 2 else -0.7, tolerance=0.1, **lt)
        if k == 3:
            return o.parametric(lambda u: numpy.array((10 * u, u * u)), tolerance=0.1, **lt)
        if k == 4:
            return o.bezier(A([(10, 0), (20, 3), (30, n)]), tolerance=0.1, **lt)
        return o.smooth(A([(10, 0), (20, 3), (30, n)]), A([None, 0.2, None, 0.1], "l"), t_in=A([1, 1.5, 1, 2]), t_out=A([1, 1, 2, 1]), tolerance=0.1, **lt)
    if kind in ("flex", "robust"):
        wo = dict(width=A((1.5, 2 + n / 10), "l"), offset=A((-3, 3), "l"))
        if k == 0:
            return o.segment(A((12, 1 + n)), relative=True, **wo)
        if k == 1:
            return o.arc(12, 0, 1 + n / 5, **wo)
        if k == 2:
            return o.turn(12, "l" if n % 2 else -0.7, **wo)
        if k == 3:
            if n % 2:
                c = A([(3.0, 1.0)], "a")
                return o.parametric(lambda u: numpy.array((10 * u, u * u)), **wo) if c is not None else o
            return o.parametric(lambda u: numpy.array((10 * u, u * u)), **wo)
        if k == 4:
            return o.bezier(A([(10, 0), (20, 3), (30, n)]), **wo)
        return o.smooth(A([(10, 0), (20, 3), (30, n)]), A([None, 0.2, None, 0.1], "l"), t_in=A([1, 1.5, 1, 2]), t_out=A([1, 1, 2, 1]), relative=True, **wo)
    if kind == "curve":
        if k == 0:
            return o.L(*A((n, 3, n + 2, 8))) if n % 2 else o.l(1, n, 2, 3)
        if k == 1:
            return o.arc(A((5, 6)), 0, 2, 0.1) if n % 2 else o.arc(4, 0, 1)
        if k == 2:
            return o.c(*A((1, 2, 4, 5, 9, n))) if n % 2 else o.C(3, 4, 5, 6, 7, 8).S(1, 2, 3, n)
        if k == 3:
            return o.q(1, 2, 3, n).T(9, 9) if n % 2 else o.h(3).V(n).H(1).v(2)
        if k == 4:
            return o.b(*A((1, 2, 3, 4, 9, n))) if n % 2 else o.Q(1, 2, 5, n).t(4, 4)
        f = o.I if n % 2 else o.i
        return f(A([(10, 0), (20, 3), (30, n)]), A([None, 0.2, None, 0.1], "l"), t_in=A([1, 1.5, 1, 2]), t_out=A([1, 1, 2, 1]))
    return o


def alter(o, kind, op, A):
    """A transformation in place; the value returned."""
    k, n = op
    if kind == "curve":
        return o
    if k == 1 and hasattr(o, "rotate"):
        return o.rotate(0.2 + n / 10, A((n, 2)))
    if k == 2 and hasattr(o, "scale"):
        return o.scale(1 + n / 10, center=A((n, 2)))
    if k == 3 and hasattr(o, "mirror"):
        return o.mirror(A((n, 2)), A((1, -5)))
    if k == 4 and hasattr(o, "fracture"):
        return o.fracture(5)
    if k == 5 and hasattr(o, "transform"):
        return o.transform(A((n, 2)), 0.2, 1.5, False, A((3.0, 4.0), "a") if n % 2 else None)
    if k == 6 and hasattr(o, "fillet") and kind in ("set", "polygon", "rectangle"):
        return o.fillet(A([0.1] * len(o.polygons), "l"))
    return o.translate(n, 2.5)


def observe(o, kind):
    if kind == "curve":
        return repr(o.get_points().tolist())
    if kind == "label":
        f = io.BytesIO()
        o.to_gds(f, 1000)
        return f.getvalue()
    if kind in ("ref", "arr", "flex", "robust"):
        return repr([p.tolist() for p in o.get_polygons()])
    return ""


def check_arguments(case, ctx):
    kind, kinds, pieces, moves, k = case
    if kind in ("flex", "robust"):
        pieces = [(0, 1)] + pieces
    A = Args(kinds)
    cell = gdspy.Cell("A").add(gdspy.Rectangle((0, 0), (2, 1)))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = construct(kind, A, k, cell)
        A.same("construction of " + kind)
        for p in pieces:
            r = extend(o, kind, p, A)
            ensure(r is o, "extending a", kind, "returned", type(r).__name__, p)
            A.same("extending a %s (%s)" % (kind, p[0]))
        if kind in ("flex", "robust") and k % 2:
            o._polygon_dict = None
        s, d = repr(snap(o)), observe(o, kind)
        for x, _ in A.given:
            scramble(x, {})
        ensure(repr(snap(o)) == s, "overwriting an argument changed a", kind)
        if kind in ("flex", "robust"):
            o._polygon_dict = None
        ensure(observe(o, kind) == d, "overwriting an argument changed the drawing of a", kind)
        n = sum(isinstance(x, (list, numpy.ndarray)) for x, _ in A.given)
        # and the other way round
        A = Args(kinds[::-1])
        o = construct(kind, A, k, cell)
        for p in pieces:
            extend(o, kind, p, A)
        for m in moves:
            r = alter(o, kind, m, A)
            ensure(r is o, "transforming a", kind, "returned", type(r).__name__, m)
            A.same("transforming a %s (%s)" % (kind, m[0]))
        s, d = repr(snap(o)), observe(o, kind)
        for x, _ in A.given:
            scramble(x, {})
        ensure(repr(snap(o)) == s, "overwriting an argument changed a transformed", kind)
        if kind in ("flex", "robust"):
            o._polygon_dict = None
        ensure(observe(o, kind) == d, "overwriting an argument changed the drawing of a transformed", kind)
        if kind == "curve":
            scramble(o.get_points(), {})
            ensure(observe(o, kind) == d, "overwriting the points of a curve changed it")
    ctx.nt(n > 0)
    ctx.label(kind)


def check_containers(case, ctx):
    """Lists given to cells and libraries, and calls of cells chained."""
    spec, seed = case
    w = World(spec, ["set", "flex"])
    els = [gdspy.Rectangle((0, 0), (1, 1)), gdspy.Label("a", (0, 0)), gdspy.FlexPath([(0, 0), (5, 1)], 1), gdspy.CellReference(w.cells[0], (1, 1))]
    c = gdspy.Cell("NEW")
    given = list(els)
    ensure(c.add(given) is c, "Cell.add returned another object")
    ensure(given == els, "Cell.add changed the list")
    s = repr(snap_cell(c))
    given.append(gdspy.Rectangle((3, 3), (9, 9)))
    given.reverse()
    ensure(repr(snap_cell(c)) == s, "the cell depends on the list it was given")
    for what, f, g in (
        ("polygons", c.remove_polygons, lambda p, a, b: False), ("paths", c.remove_paths, lambda p: False), ("labels", c.remove_labels, lambda l: False),
    ):
        ensure(f(g) is c, "removing", what, "returned another object")
    ensure(repr(snap_cell(c)) == s, "removing nothing changed the cell")
    d = c.copy("SHARED")
    d.add(gdspy.Rectangle((3, 3), (9, 9)))
    d.labels.reverse()
    d.references.append(None)
    d.paths.append(None)
    ensure(repr(snap_cell(c)) == s, "changing the lists of a copy changed the cell")
    lib = gdspy.GdsLibrary()
    many = [w.cells[0], c] if w.cells[0] is not c else [c]
    keep = list(many)
    ensure(lib.add(many) is lib, "GdsLibrary.add returned another object")
    ensure(many == keep, "GdsLibrary.add changed the list")
    many.append(gdspy.Cell("LATER"))
    ensure(set(lib.cells) == {x.name for x in keep}, "the library depends on the list")
    n = gdspy.Cell("EMPTY")
    ensure(n.flatten() is n, "Cell.flatten returned another object")
    # a file read twice gives separate objects
    with tempfile.TemporaryDirectory() as tmp:
        f = os.path.join(tmp, "a.gds")
        full = gdspy.GdsLibrary()
        for x in w.cells:
            full.add(x)
        state = repr([snap_cell(x) for x in w.cells])
        full.write_gds(f)
        ensure(repr([snap_cell(x) for x in w.cells]) == state, "writing changed the cells")
        maps = [{0: 3, 1: 4}, {0: 1}, {2: 0}]
        rename = {w.cells[0].name: "OTHER"}
        before = repr((maps, rename))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            a = gdspy.GdsLibrary().read_gds(f, layers=maps[0], datatypes=maps[1], texttypes=maps[2], rename=rename)
            b = gdspy.GdsLibrary().read_gds(f, layers=maps[0], datatypes=maps[1], texttypes=maps[2], rename=rename)
        ensure(repr((maps, rename)) == before, "reading changed the maps")
        sb = repr([(k, snap_cell(v)) for k, v in sorted(b.cells.items())])
        for v in a.cells.values():
            for e in v.polygons + v.paths + v.labels + v.references:
                scramble(e, {})
        ensure(repr([(k, snap_cell(v)) for k, v in sorted(b.cells.items())]) == sb, "two readings share data")
    ctx.nt()
    ctx.label("containers")


idx = st.integers(0, 30)
several = st.one_of(idx, idx, st.lists(idx, max_size=3).map(tuple))
by = st.sampled_from([False, True, "spec"])
op = st.one_of(
    st.tuples(st.just("boolean"), several, st.one_of(several, st.none()), st.sampled_from(["or", "and", "xor", "not"]), st.sampled_from([199, 0, 5])),
    st.tuples(st.just("slice"), idx, st.lists(st.integers(-9, 9), min_size=1, max_size=3, unique=True), st.integers(0, 1)),
    st.tuples(st.just("offset"), idx, st.sampled_from([0.5, 1, -0.25, 0]), st.booleans()),
    st.tuples(st.just("inside"), idx, st.lists(H.small, min_size=1, max_size=3), st.booleans()),
    st.tuples(st.just("copy"), idx, st.sampled_from([0, 2.5]), st.sampled_from([0, -3])),
    st.tuples(
        st.just("get"), idx, st.integers(0, 2), st.sampled_from(["polygons", "sets", "paths", "labels", "box", "area", "dependencies"]), by,
        st.sampled_from([None, None, 0, 1, 2]),
    ),
    st.tuples(
        st.just("get"), idx, st.integers(0, 2), st.sampled_from(["polygons", "sets", "paths", "labels"]), by, st.sampled_from([None, 0, 1]),
    ),
    st.tuples(
        st.just("duplicate"), idx, st.just(0),
        st.one_of(st.none(), st.tuples(st.one_of(st.none(), H.small), st.sampled_from([None, 0.5, math.pi / 2]), st.sampled_from([None, 2]), st.booleans())),
    ),
    st.tuples(st.just("svg"), idx, st.just(0)),
    st.tuples(st.just("gds"), idx, st.integers(0, 1)),
    st.tuples(st.just("lib"), idx, st.just(0)),
    st.tuples(st.just("path"), idx, idx),
)
KINDS = ["set", "polygon", "rectangle", "round", "text", "polypath", "l1path", "path", "flex", "robust", "label", "ref", "arr", "curve"]
MANY = KINDS + ["path", "flex", "robust", "curve", "flex", "robust", "curve", "path"]
SUBS = [
    Sub("queries", st.tuples(H.cells(maxcells=3), st.lists(st.sampled_from(OPER), min_size=2, max_size=4), st.lists(op, min_size=1, max_size=5)), check_queries, 1300),
    Sub(
        "arguments",
        st.tuples(
            st.sampled_from(MANY), st.lists(st.integers(0, 5), min_size=3, max_size=7), st.lists(st.tuples(st.integers(0, 5), st.integers(0, 6)), max_size=3),
            st.lists(st.tuples(st.integers(0, 6), st.integers(0, 6)), max_size=3), st.integers(0, 5),
        ),
        check_arguments, 900,
    ),
    Sub("containers", st.tuples(H.cells(maxcells=3), st.just(0)), check_containers, 300),
]
