"""Operand forms and set algebra of boolean operations."""
import gdspy
import gen
import hier
import numpy
import oracle
import regions as R
from build import snap
from core import Rare, Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Forms: operands drawn as random mixtures of vertex lists and arrays, polygon sets, paths of both classes, references and "
    "arrays, alone or in lists or tuples; non-trivial if an operand mixes at least two forms or is a single object.  Algebra: "
    "random polygon lists and frames; non-trivial if the operands overlap."
)
ASSUMPTIONS = [
    "an isolated failure of an identity (two per worker, then one per 1000 cases) is not reported if it holds for four inputs with every vertex moved by up "
    "to 20 grid steps (see B01)",
    "regions are compared within three precision steps around the edges involved"]

poly = st.one_of(R.simple, R.cellsq)
leaf = st.tuples(st.lists(st.tuples(poly, st.integers(0, 3), st.integers(0, 3)), min_size=1, max_size=3))
item = st.one_of(
    st.tuples(st.sampled_from(["list", "tuple", "array", "int"]), poly),
    st.tuples(st.just("pset"), st.lists(poly, min_size=1, max_size=3)),
    st.tuples(st.just("path"), hier.path),
    st.tuples(st.just("ref"), hier.ref, st.lists(poly, min_size=1, max_size=2)),
    st.tuples(st.just("arr"), hier.arr, st.lists(poly, min_size=1, max_size=2)),
    st.tuples(st.just("rect"), gen.rect_polygon(6)),
)


@st.composite
def twins(draw):
    """References to one cell that differ in a single attribute or not at all."""
    s = draw(st.one_of(hier.ref, hier.arr))
    t = draw(hier.ref if s[0] == "ref" else hier.arr)
    k = draw(st.integers(2, len(s) - 1))
    return ("twin", s, draw(st.lists(poly, min_size=1, max_size=2)), s[:k] + (t[k],) + s[k + 1:], draw(st.booleans()))


one = item
item = st.one_of(one, one, one, one, twins())
single = one.filter(lambda t: t[0] not in ("list", "tuple", "array", "int"))
grid_polys = st.lists(st.one_of(R.cellsq, gen.rect_polygon(4), gen.ell_polygon(4)), min_size=1, max_size=4)
operand = st.one_of(
    st.tuples(st.just("single"), single.map(lambda t: [t])),
    st.tuples(st.sampled_from(["list", "list", "tuple", "gen"]), st.lists(item, max_size=4)),
    st.tuples(st.sampled_from(["list", "tuple"]), st.lists(item, min_size=2, max_size=4)),
    st.just(("none", [])),
)


def cap(s, big=60):
    """A reference placed within a bounded area."""
    def c(v):
        return (v + big) % (2 * big) - big

    if s[0] == "ref":
        return s[:2] + ((c(s[2][0]), c(s[2][1])),) + s[3:]
    return s[:4] + ((c(s[4][0]), c(s[4][1])), (c(s[5][0]), c(s[5][1]))) + s[6:]


def build(t):
    """(operand element, its plain polygons)"""
    k = t[0]
    if k == "list":
        return [list(p) for p in t[1]], [numpy.array(t[1], dtype=float)]
    if k == "tuple":
        return tuple(tuple(p) for p in t[1]), [numpy.array(t[1], dtype=float)]
    if k == "array":
        return numpy.array(t[1], dtype=float), [numpy.array(t[1], dtype=float)]
    if k == "int":
        q = numpy.round(numpy.array(t[1], dtype=float)).astype(int)
        return q, [q.astype(float)]
    if k == "pset":
        return gdspy.PolygonSet(t[1], 3, 4), [numpy.array(p, dtype=float) for p in t[1]]
    if k == "rect":
        a = numpy.array(t[1], dtype=float)
        lo, hi = a.min(axis=0), a.max(axis=0)
        return gdspy.Rectangle(lo, hi, 1, 2), [numpy.array([lo, (lo[0], hi[1]), hi, (hi[0], lo[1])])]
    if k == "path":
        o = hier.make_path(t[1])
        return o, [numpy.array(p) for p in hier.make_path(t[1]).get_polygons()]
    cell = gdspy.Cell("LEAF")
    cell.add(gdspy.PolygonSet(t[2], 5, 6))
    os, flat, first = [], [], 0
    for s in t[1:4:2]:
        s = cap(s)
        os.append(hier.make_ref(s[:1] + (0,) + s[2:], 1, [cell]))
        flat.extend(hier.apply(m, p) for m in hier.ref_maps(s) for p in t[2])
        first = first or len(flat)
    if k == "twin" and t[4]:
        os.append(os[0])
        flat.extend(flat[:first])
    return os if k == "twin" else os[0], flat


def make(spec):
    form, items = spec
    if form == "none":
        return None, [], []
    built = [build(t) for t in items]
    flat = [p for _, ps in built for p in ps]
    objs = [x for t, (o, _) in zip(items, built) for x in (o if t[0] == "twin" else [o])]
    if form == "single":
        return objs[0], flat, objs
    if form == "tuple":
        return tuple(objs), flat, objs
    if form == "gen":
        return (o for o in objs), flat, objs
    return objs, flat, objs


def call(a, b, op, prec, maxp, ly, dt):
    return gdspy.boolean(a, b, op, precision=prec, max_points=maxp, layer=ly, datatype=dt)


def check_forms(case, ctx):
    sa, sb, op, prec, maxp, ly, dt = case
    a, fa, oa = make(sa)
    b, fb, ob = make(sb)
    if a is None:
        a, fa = [], []
    before = [snap(o, True) for o in oa + ob]
    res = call(a, b, op, prec, maxp, ly, dt)
    for o, s in zip(oa + ob, before):
        ensure(snap(o, True) == s, "operand changed", s)
    plain = call([p.copy() for p in fa], None if sb[0] == "none" else [p.copy() for p in fb], op, prec, maxp, ly, dt)
    ensure((res is None) == (plain is None), "forms: None or not", res, plain)
    if res is not None:
        # the coordinates of references are only equal up to rounding errors
        P, Q = list(res.polygons), list(plain.polygons)
        same = len(P) == len(Q) and all(p.shape == q.shape and numpy.abs(p - q).max(initial=0) <= prec * 1.01 for p, q in zip(P, Q))
        if not same:
            n = 6 * prec
            d = oracle.xor_area(P, Q)
            lim = n * (oracle.total_perimeter(P) + oracle.total_perimeter(Q)) + n * n
            ensure(d <= lim, "forms differ", d, lim, [p.tolist() for p in P][:3], [p.tolist() for p in Q][:3])
        n = len(res.polygons)
        ensure(len(res.layers) == len(res.datatypes) == n, "tags", len(res.layers), len(res.datatypes), n)
        ensure(all(x == ly for x in res.layers) and all(x == dt for x in res.datatypes), "layer or datatype", res.layers, res.datatypes)
        if maxp > 4:
            ensure(all(len(p) <= maxp for p in res.polygons), "vertex limit", [len(p) for p in res.polygons])
    kinds = {t[0] for t in sa[1] + sb[1]}
    ctx.nt(res is not None and (len(kinds) > 1 or sa[0] == "single"))
    ctx.label(*(["a " + sa[0], "b " + sb[0], op] + sorted(kinds)))


def area_not(P, Q):
    return oracle.xor_area(P, Q)


def polys_of(r):
    return [] if r is None else [numpy.asarray(p) for p in r.polygons]


def algebra(case, ctx):
    a, b, c, prec, shift, maxp = case
    kw = dict(precision=prec, max_points=maxp)
    ops = lambda x, y, o: polys_of(gdspy.boolean(x, y, o, **kw)) if len(x) and len(y) else ({"or": x or y, "xor": x or y, "not": x, "and": []}[o])
    frame = [[(-60, -60), (60, -60), (60, 60), (-60, 60)]]
    tol = 3 * prec
    used = oracle.total_perimeter(a) + oracle.total_perimeter(b) + oracle.total_perimeter(c) + oracle.total_perimeter(frame)

    def same(P, Q, what):
        d = oracle.xor_area(P, Q)
        lim = tol * (used + oracle.total_perimeter(P) + oracle.total_perimeter(Q)) + 16 * prec * prec
        ensure(d <= lim, what, "areas differ by", d, "limit", lim)

    ab = {o: ops(a, b, o) for o in ("or", "and", "xor", "not")}
    for o in ("or", "and", "xor"):
        same(ab[o], ops(b, a, o), "commutativity of " + o)
    u = ops(a, a, "or")
    same(ops(a, ab["and"], "or"), u, "absorption")
    same(ops(a, ab["or"], "and"), u, "absorption 2")
    same(ops(ab["not"], ab["and"], "or"), u, "partition")
    same(ops(ab["or"], ab["and"], "not"), ab["xor"], "xor")
    same(ops(frame, ab["or"], "not"), ops(ops(frame, a, "not"), ops(frame, b, "not"), "and"), "De Morgan")
    same(ops(frame, ab["and"], "not"), ops(ops(frame, a, "not"), ops(frame, b, "not"), "or"), "De Morgan 2")
    exact = not any(R.slanted(p) for q in (a, b, c) for p in q)
    if exact:
        same(ops(ops(a, b, "xor"), c, "xor"), ops(a, ops(b, c, "xor"), "xor"), "associativity of xor")
    same(ops(ops(a, b, "or"), c, "or"), ops(a, ops(b, c, "or"), "or"), "associativity")
    same(ops(ab["or"], c, "and"), ops(ops(a, c, "and"), ops(b, c, "and"), "or"), "distributivity")
    d = (shift[0] * 10 * prec, shift[1] * 10 * prec)
    sa, sb = ([[(x + d[0], y + d[1]) for x, y in p] for p in q] for q in (a, b))
    for o in ("or", "xor", "not"):
        same([p - numpy.array(d) for p in ops(sa, sb, o)], ab[o], "translation of " + o)
    m = [[(y, x) for x, y in p] for p in a], [[(y, x) for x, y in p] for p in b]
    for o in ("and", "not"):
        same([p[:, ::-1] for p in ops(m[0], m[1], o)], ab[o], "mirror of " + o)
    ctx.nt(oracle.measure([a, b], lambda w: (w[..., 0] != 0) & (w[..., 1] != 0)) > 20 * prec)
    ctx.label("max %d" % maxp)


def check_algebra(case, ctx, rare=Rare()):
    rare(algebra, case, ctx, lambda c: R.jittered(c, 3, 20 * c[3]))


def check_self(case, ctx):
    """No second operand: the union of the polygons of the first."""
    a, prec, maxp, op = case
    r = polys_of(gdspy.boolean(a, None, op, precision=prec, max_points=maxp))
    d = R.difference(R.on_grid(a, prec), [], "or", r)
    lim = 2 * prec * (R.length(a) + R.length(r)) + 16 * prec * prec
    ensure(d <= lim, "union of one operand", op, d, lim)
    o = R.overlap(r)
    ensure(op == "not" or o <= lim, "overlap", o)
    ctx.nt(len(a) > 1)


SUBS = [
    Sub("forms", st.tuples(operand, operand, st.sampled_from(["or", "and", "xor", "not"]), st.sampled_from([1e-3, 1e-3, 1e-2, 1e-4]),
                           st.sampled_from([199, 0, 5, 6, 12]), st.integers(0, 255), st.integers(0, 255)), check_forms, 1600),
    Sub("algebra", st.one_of(st.tuples(R.simples, R.simples, R.simples), st.tuples(grid_polys, grid_polys, grid_polys)).flatmap(lambda abc: st.tuples(st.just(abc), st.sampled_from([1e-3, 1e-3, 1e-2, 1e-5]),
                             st.tuples(st.integers(-9999, 9999), st.integers(-9999, 9999)), st.sampled_from([199, 199, 0, 5, 9]))).map(lambda t: t[0] + t[1:]), check_algebra, 400),
    Sub("one", st.tuples(st.lists(poly, min_size=1, max_size=5), R.precision, st.sampled_from([199, 0, 5, 12]), st.sampled_from(["or"])), check_self, 800),
]
