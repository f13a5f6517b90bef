"""Plain-data cell hierarchies, their construction and an independent placement model."""
import math

import numpy
from hypothesis import strategies as st

import gdspy
import gen
from build import set_props

num = st.one_of(st.integers(-12, 12), gen.grid(-12000, 12000), gen.grid(-9000000, 9000000, 1000))
pt = st.tuples(num, num)
verts = st.one_of(gen.simple_polygon, st.lists(pt, min_size=3, max_size=6))
layer = st.integers(0, 3)
rot = st.one_of(st.none(), st.sampled_from([0, 90, 180, 270, -90, 45, 30]), st.integers(-3600, 3600).map(lambda k: k / 10.0))
mag = st.one_of(st.none(), st.sampled_from([1, 2, 0.5]), st.integers(100, 3000).map(lambda k: k / 1000.0))

pset = st.lists(st.tuples(verts, layer, layer), min_size=1, max_size=3).flatmap(
    lambda ps: st.tuples(st.just(ps), gen.props)
)
ends = st.sampled_from(["flush", "flush", "extended", "round", (0.5, 0.25), (1, 2)])
# symmetric: parallel elements mirrored about the spine, with equal layers and
# types (reflections of other flexible paths are a known finding)
arms = st.one_of(
    st.tuples(st.just([0]), st.lists(st.integers(1, 3), min_size=1, max_size=1)),
    st.tuples(st.sampled_from([[-2, 2], [-1.5, 1.5]]), st.integers(1, 3).map(lambda w: [w, w])),
)


def spread(pts):
    """Consecutive points far enough apart to be joined without surprises."""
    out = []
    x, y = pts[0]
    out.append((x, y))
    for i, (a, b) in enumerate(pts[1:]):
        k = abs(int(a)) % 8
        n = 8 + abs(int(b)) % 7
        t = k * math.pi / 12 - math.pi / 6
        x, y = x + round(n * math.cos(t), 3), y + round(n * math.sin(t), 3)
        out.append((x, y))
    return out


small = st.tuples(st.integers(-12, 12), st.integers(-12, 12))
_pts = st.lists(small, min_size=2, max_size=4).map(spread)
flex = st.tuples(
    st.sampled_from(["flex", "gdsflex"]), _pts, arms, ends,
    layer.map(lambda a: [a, a]), layer.map(lambda a: [a, a]), st.booleans(), gen.props,
)
robust = st.tuples(
    st.sampled_from(["robust", "gdsrobust"]), _pts,
    st.one_of(arms, st.tuples(
        st.lists(st.sampled_from([-3, -1, 0.5, 2, 4]), min_size=2, max_size=2), st.lists(st.integers(1, 3), min_size=2, max_size=2))),
    ends, st.lists(layer, min_size=2, max_size=2), st.lists(layer, min_size=2, max_size=2), st.booleans(), gen.props,
)
path = st.one_of(flex, robust)
label = st.tuples(gen.ascii_text, pt, gen.anchors, rot, mag, st.booleans(), layer, layer, gen.props)
# distance back to the referenced cell, minus one
target = st.one_of(st.integers(0, 1), st.integers(0, 5), st.integers(0, 5), st.integers(0, 5), st.just("MISSING"))
ref = st.tuples(st.just("ref"), target, pt, rot, mag, st.booleans(), gen.props)
arr = st.tuples(
    st.just("arr"), target, st.integers(1, 3), st.integers(1, 3),
    st.tuples(st.one_of(st.integers(-30, 30), gen.grid(-30000, 30000)), st.one_of(st.integers(-30, 30), gen.grid(-30000, 30000))),
    pt, rot, mag, st.booleans(), gen.props,
)


def cells(paths=True, labels=True, polys=True, maxcells=4, maxrefs=2):
    """Lists of cells; cell i references earlier ones.  Most have a leaf with
    geometry and references in every other cell."""
    some = st.one_of(ref, ref, arr)

    def cell(minp, minr):
        return st.tuples(
            st.lists(pset, min_size=minp, max_size=2) if polys else st.just([]),
            st.lists(path, max_size=1) if paths else st.just([]),
            st.lists(label, max_size=2) if labels else st.just([]),
            st.lists(some, min_size=minr, max_size=maxrefs),
        )

    full = st.integers(2, maxcells).flatmap(
        lambda n: st.tuples(cell(1, 0), st.lists(cell(0, 1), min_size=n - 1, max_size=n - 1))
    ).map(lambda t: [t[0]] + t[1])
    loose = st.lists(cell(0, 0), min_size=1, max_size=maxcells)
    # several levels below a cell with many references
    small = st.tuples(
        st.lists(pset, min_size=1, max_size=1) if polys else st.just([]), st.just([]),
        st.lists(label, max_size=1) if labels else st.just([]), st.lists(ref, max_size=1),
    )
    wide = st.tuples(
        st.lists(small, min_size=3, max_size=5),
        st.tuples(st.just([]), st.just([]), st.just([]), st.lists(st.one_of(ref, ref, ref, arr), min_size=3, max_size=5)),
    ).map(lambda t: t[0] + [t[1]])
    return st.one_of(full, full, full, full, loose, *([wide] if maxcells > 3 else []))


def make_pset(s):
    ps, pr = s
    e = gdspy.PolygonSet([p for p, _, _ in ps])
    e.layers = [a for _, a, _ in ps]
    e.datatypes = [b for _, _, b in ps]
    return set_props(e, pr)


def make_path(s):
    kind, pts, (offs, ws), en, ly, dt, wt, pr = s
    n = len(offs)
    kw = dict(ends=en, layer=list(ly[:n]), datatype=list(dt[:n]))
    if kind.startswith("gds"):
        kw.update(gdsii_path=True, width_transform=True)
    if kind.endswith("flex"):
        e = gdspy.FlexPath(pts, list(ws), list(offs), **kw)
    else:
        e = gdspy.RobustPath(pts[0], list(ws), list(offs), **kw)
        for q in pts[1:]:
            e.segment(q)
    return set_props(e, pr)


def make_label(s):
    text, pos, an, ro, mg, xr, ly, tt, pr = s
    return set_props(gdspy.Label(text, pos, an, ro, mg, xr, ly, tt), pr)


def tgt(i, t):
    """Index of the target cell of a reference in cell i, or a name."""
    if isinstance(t, str):
        return t
    return i - 1 - t % i if i > 0 else "NOWHERE"


def make_ref(s, i, objs):
    t = tgt(i, s[1])
    t = t if isinstance(t, str) else objs[t]
    if s[0] == "ref":
        _, _, org, ro, mg, xr, pr = s
        e = gdspy.CellReference(t, org, ro, mg, xr, ignore_missing=True)
    else:
        _, _, nc, nr, sp, org, ro, mg, xr, pr = s
        e = gdspy.CellArray(t, nc, nr, sp, org, ro, mg, xr, ignore_missing=True)
    return set_props(e, pr)


def make(spec, prefix="C"):
    objs = []
    for i, (ps, paths, labels, refs) in enumerate(spec):
        c = gdspy.Cell("%s%d" % (prefix, i))
        for s in ps:
            c.add(make_pset(s))
        for s in paths:
            c.add(make_path(s))
        for s in labels:
            c.add(make_label(s))
        for s in refs:
            c.add(make_ref(s, i, objs))
        objs.append(c)
    return objs


# -- placement model: affine maps as (2x2 matrix, vector) ---------------------

ID = (numpy.eye(2), numpy.zeros(2))


def compose(a, b):
    """a after b."""
    return (a[0] @ b[0], a[0] @ b[1] + a[1])


def apply(m, pts):
    p = numpy.asarray(pts, dtype=float).reshape(-1, 2)
    return p @ m[0].T + m[1]


def ref_maps(s):
    """The maps of a reference, one per array position."""
    if s[0] == "ref":
        _, _, org, ro, mg, xr, _ = s
        lattice = [(0.0, 0.0)]
    else:
        _, _, nc, nr, sp, org, ro, mg, xr, _ = s
        lattice = [(i * sp[0], j * sp[1]) for i in range(nc) for j in range(nr)]
    a = math.radians(ro or 0)
    R = numpy.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])
    X = numpy.diag([1.0, -1.0 if xr else 1.0])
    m = 1.0 if mg is None else mg
    return [(R @ X * m, R @ X @ numpy.array(d) + numpy.array(org, dtype=float)) for d in lattice]


def ref_linear(s):
    """(rotation, magnification, reflection) of a reference."""
    ro, mg, xr = s[-4], s[-3], s[-2]
    return (ro or 0, 1 if mg is None else mg, xr)


def instances(spec, i, depth=None, m=ID, level=0):
    """Yield (map, cell index, list of (rotation, mag, reflection) from outside
    in) of every placed cell reachable within depth, and ("box", map, cell
    index) for cells at the limit."""
    yield ("cell", m, i)
    for s in spec[i][3]:
        t = tgt(i, s[1])
        if isinstance(t, str):
            continue
        for r in ref_maps(s):
            mm = compose(m, r)
            if depth is not None and level >= depth:
                yield ("box", mm, t)
            else:
                yield from instances(spec, t, depth, mm, level + 1)


def size(spec, i, memo=None):
    """Number of placed cells."""
    memo = {} if memo is None else memo
    if i not in memo:
        memo[i] = 1 + sum(
            (1 if s[0] == "ref" else s[2] * s[3]) * size(spec, tgt(i, s[1]), memo)
            for s in spec[i][3]
            if not isinstance(tgt(i, s[1]), str)
        )
    return memo[i]


def own_polygons(spec, i):
    """[(vertices, layer, datatype)] of the cell's own elements (paths by
    their own polygons)."""
    out = []
    for ps, _ in spec[i][0]:
        out += [(numpy.asarray(p, dtype=float), a, b) for p, a, b in ps]
    for s in spec[i][1]:
        for (a, b), v in make_path(s).get_polygons(True).items():
            out += [(p, a, b) for p in v]
    return out


def placed_polygons(spec, i, depth=None):
    own = {}
    out, boxes = [], []
    for kind, m, k in instances(spec, i, depth):
        if kind == "cell":
            if k not in own:
                own[k] = own_polygons(spec, k)
            out += [(apply(m, p), a, b) for p, a, b in own[k]]
        else:
            boxes.append((m, k))
    return out, boxes


def bbox(spec, i):
    pts = [p for p, _, _ in placed_polygons(spec, i)[0] if len(p)]
    if not pts:
        return None
    a = numpy.concatenate(pts)
    return numpy.array([a.min(axis=0), a.max(axis=0)])


def scale_of(spec):
    """Magnitude of coordinates that can appear, for tolerances."""
    big = 1.0
    for c in spec:
        for ps, _ in c[0]:
            for p, _, _ in ps:
                big = max(big, float(numpy.abs(numpy.asarray(p, dtype=float)).max()))
        for s in c[1]:
            big = max(big, float(numpy.abs(numpy.asarray(s[1], dtype=float)).max()))
        for s in c[2]:
            big = max(big, max(abs(s[1][0]), abs(s[1][1])))
        for s in c[3]:
            o = s[2] if s[0] == "ref" else s[5]
            big = max(big, abs(o[0]), abs(o[1]))
    return big * 40


def interesting(spec, i):
    """A reference with a transformation, or nesting."""
    seen = [s for s in spec[i][3] if not isinstance(tgt(i, s[1]), str)]
    return any(s[-4] or s[-3] not in (None, 1) or s[-2] or s[0] == "arr" for s in seen) or size(spec, i) > 2
