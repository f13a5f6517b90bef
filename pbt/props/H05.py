"""Bounding boxes under histories of queries and changes."""
import gdspy
import hier as H
import numpy
from build import set_props
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Random histories (up to 12 operations) of queries, additions, removals, flattening, copying, replacing and removing "
    "references on up to 4 cells that reference each other, starting from a random hierarchy; each box is compared with "
    "the extreme coordinates of the polygons placed by an independent model of the current contents. Non-trivial: some "
    "cell with a box is queried again after the contents of a cell it depends on (or its own) changed."
)
ASSUMPTIONS = [
    "paths have no round ends, so that transformations map their polygons exactly",
    "elements are changed in place only together with an addition or removal (see known findings)",
]

ends = st.sampled_from(["flush", "extended", (0.5, 0.25)])
mpath = H.path.map(lambda s: s[:3] + ("flush" if s[3] == "round" else s[3],) + s[4:])
idx = st.integers(0, 5)
op = st.one_of(
    st.tuples(st.just("query"), idx),
    st.tuples(st.just("query"), idx),
    st.tuples(st.just("query_ref"), idx, idx),
    st.tuples(st.just("poly"), idx, H.pset),
    st.tuples(st.just("poly"), idx, H.pset),
    st.tuples(st.just("path"), idx, mpath),
    st.tuples(st.just("ref"), idx, st.one_of(H.ref, H.arr)),
    st.tuples(st.just("ref"), idx, st.one_of(H.ref, H.arr)),
    st.tuples(st.just("label"), idx, H.label),
    st.tuples(st.just("rm_poly"), idx, H.layer),
    st.tuples(st.just("rm_path"), idx, idx),
    st.tuples(st.just("flatten"), idx),
    st.tuples(st.just("replace"), idx, idx),
    st.tuples(st.just("resolve"), idx),
    st.tuples(st.just("retire"), idx),
    st.tuples(st.just("leave"), idx),
    st.tuples(st.just("copy"), idx, st.tuples(H.pt, st.integers(-40, 40), st.sampled_from([None, 2, 0.5]), st.booleans())),
    st.tuples(st.just("shift"), idx, idx, H.pt, H.pset),
)


class M:
    """Model of a cell: polygons grouped by element, and placed targets."""

    def __init__(self):
        self.psets = []  # lists of (vertices, layer)
        self.paths = []  # lists of vertices
        self.refs = []  # [maps, target model or None]

    def points(self):
        out = [v for ps in self.psets for v, _ in ps] + [v for p in self.paths for v in p]
        for maps, t, _ in self.refs:
            if t is not None:
                inner = t.points()
                out += [H.apply(m, v) for m in maps for v in inner]
        return out

    def box(self):
        p = [v for v in self.points() if len(v)]
        if not p:
            return None
        a = numpy.concatenate(p)
        return numpy.array([a.min(axis=0), a.max(axis=0)])

    def flat(self):
        ps, pa = list(self.psets), list(self.paths)
        for maps, t, _ in self.refs:
            if t is not None:
                ips, ipa = t.flat()
                for m in maps:
                    ps += [[(H.apply(m, v), l) for v, l in e] for e in ips]
                    pa += [[H.apply(m, v) for v in e] for e in ipa]
        return ps, pa

    def count(self):
        return 1 + sum(len(m) * t.count() for m, t, _ in self.refs if t is not None)

    def depends(self, other):
        return any(t is other or t.depends(other) for _, t, _ in self.refs if t is not None)


def mod_pset(s):
    return [(numpy.asarray(p, dtype=float), a) for p, a, b in s[0]]


def mod_path(s):
    return [p for v in H.make_path(s).get_polygons(True).values() for p in v]


def compare(obj, exp, what, scale):
    got = obj.get_bounding_box()
    ensure((got is None) == (exp is None), what, got, "expected", exp)
    if exp is not None:
        ensure(numpy.shape(got) == (2, 2) and float(numpy.abs(got - exp).max()) <= 1e-9 * scale, what, got.tolist(), "expected", exp.tolist())
        got += 1e6  # a caller may do as it pleases with the answer


def run_history(case, ctx, limit=400):
    spec, ops = case
    # no round ends
    spec = [(a, [s[:3] + ("flush" if s[3] == "round" else s[3],) + tuple(s[4:]) for s in b], c, d) for a, b, c, d in spec]
    objs = H.make(spec)
    lib = gdspy.GdsLibrary()
    lib.add(objs, include_dependencies=False)
    mods = []
    for i, (ps, pa, lb, rf) in enumerate(spec):
        m = M()
        m.psets = [mod_pset(s) for s in ps]
        m.paths = [mod_path(s) for s in pa]
        for s in rf:
            t = H.tgt(i, s[1])
            m.refs.append([H.ref_maps(s), None if isinstance(t, str) else mods[t], t])
        mods.append(m)
    retired = set()
    scale = H.scale_of(spec) * 100
    queried = set()
    changed = set()
    n_nt = 0
    for o in ops:
        i = o[1] % len(objs)
        c, m = objs[i], mods[i]
        kind = o[0]
        if kind == "query":
            compare(c, m.box(), "cell %d" % i, scale)
            if i in queried and any(j == i or m.depends(mods[j]) for j in changed):
                n_nt += 1
            queried.add(i)
        elif kind == "query_ref":
            if c.references:
                j = o[2] % len(c.references)
                maps, t, _ = m.refs[j]
                one = M()
                one.refs = [[maps, t, None]]
                compare(c.references[j], one.box(), "reference %d of cell %d" % (j, i), scale)
        else:
            changed.add(i)
        if kind == "poly":
            c.add(H.make_pset(o[2]))
            m.psets.append(mod_pset(o[2]))
        elif kind == "path":
            c.add([H.make_path(o[2])])
            m.paths.append(mod_path(o[2]))
        elif kind == "label":
            c.add(H.make_label(o[2]))
        elif kind == "ref":
            t = H.tgt(i, o[2][1])
            if not isinstance(t, str) and (m.count() + mods[t].count() * 9 > limit or mods[t] is m or mods[t].depends(m)):
                continue
            c.add(H.make_ref(o[2], i, objs))
            m.refs.append([H.ref_maps(o[2]), None if isinstance(t, str) else mods[t], t])
        elif kind == "rm_poly":
            c.remove_polygons(lambda p, l, d: l == o[2])
            m.psets = [e for e in ([(v, l) for v, l in e if l != o[2]] for e in m.psets) if e]
        elif kind == "rm_path":
            if c.paths:
                p = c.paths[o[2] % len(c.paths)]
                del m.paths[o[2] % len(c.paths)]
                c.remove_paths(lambda q: q is p)
        elif kind == "flatten":
            if m.count() <= 60:
                c.flatten()
                m.psets, m.paths = m.flat()
                m.refs = []
        elif kind == "replace":
            j = o[2] % len(objs)
            users = [x for k, x in enumerate(mods) if k not in retired]
            if i == j or any(mods[j] is x or mods[j].depends(x) for x in users if any(t is m for _, t, _ in x.refs)):
                continue
            if any(sum(len(r[0]) for r in x.refs) * mods[j].count() > limit for x in users):
                continue
            lib.replace_references(c.name, objs[j])
            for x in users:
                for r in x.refs:
                    if r[1] is m:
                        r[1] = mods[j]
        elif kind == "resolve":
            # references to a missing cell find one at last
            names = sorted(r[2] for k, x in enumerate(mods) if k not in retired for r in x.refs if r[1] is None)
            if not names:
                continue
            name = names[0]
            users = [x for k, x in enumerate(mods) if k not in retired and any(r[1] is None and r[2] == name for r in x.refs)]
            if any(m is x or m.depends(x) for x in users) or any(sum(len(r[0]) for r in x.refs) * m.count() > limit for x in users):
                continue
            lib.replace_references(name, c)
            for x in users:
                for r in x.refs:
                    if r[1] is None and r[2] == name:
                        r[1] = m
        elif kind == "retire":
            lib.remove(c)
            retired.add(i)
            for k, x in enumerate(mods):
                if k not in retired:
                    x.refs = [r for r in x.refs if r[1] is not m]
        elif kind == "leave":
            # the cell is not in the library any more, but still referenced
            if i not in retired:
                ensure(lib.remove(c, remove_references=False) == 0, "references removed")
                retired.add(i)
        elif kind == "copy":
            if len(objs) > 6:
                continue
            (dx, dy), q, sc, xr = o[2]
            ang = q / 20.0 * 3
            n = c.copy("D%d" % len(objs), translation=(dx, dy), rotation=ang, scale=sc, x_reflection=xr)
            ca, sa = numpy.cos(ang), numpy.sin(ang)
            A = numpy.array([[ca, -sa], [sa, ca]]) @ numpy.diag([1.0, -1.0 if xr else 1.0]) * (sc or 1)
            T = (A, numpy.array([dx, dy], dtype=float))
            y = M()
            y.psets = [[(H.apply(T, v), l) for v, l in e] for e in m.psets]
            y.paths = [[H.apply(T, v) for v in e] for e in m.paths]
            y.refs = [[[H.compose(T, mm) for mm in maps], t, k] for maps, t, k in m.refs]
            objs.append(n)
            mods.append(y)
            lib.add(n, include_dependencies=False)
            scale *= 2
        elif kind == "shift":
            els = [("p", e) for e in c.polygons] + [("a", e) for e in c.paths] + [("r", e) for e in c.references]
            if els:
                j = o[2] % len(els)
                els[j][1].translate(*o[3])
                T = (numpy.eye(2), numpy.array(o[3], dtype=float))
                if els[j][0] == "p":
                    m.psets[j] = [(H.apply(T, v), l) for v, l in m.psets[j]]
                elif els[j][0] == "a":
                    k = j - len(c.polygons)
                    m.paths[k] = [H.apply(T, v) for v in m.paths[k]]
                else:
                    k = j - len(c.polygons) - len(c.paths)
                    m.refs[k][0] = [H.compose(T, mm) for mm in m.refs[k][0]]
            c.add(H.make_pset(o[4]))
            m.psets.append(mod_pset(o[4]))
        ctx.label(kind)
    for i, (c, m) in enumerate(zip(objs, mods)):
        compare(c, m.box(), "finally cell %d" % i, scale)
        for r, (maps, t, _) in zip(c.references, m.refs):
            one = M()
            one.refs = [[maps, t, None]]
            compare(r, one.box(), "finally a reference of cell %d" % i, scale)
        if i in queried and any(j == i or m.depends(mods[j]) for j in changed):
            n_nt += 1
    ctx.nt(n_nt > 0)


def check(case, ctx):
    run_history(case, ctx)


def check_inplace(case, ctx):
    """An element moved after a query, with nothing added or removed."""
    poly, d = case
    c = gdspy.Cell("A")
    e = gdspy.Polygon(poly)
    c.add(e)
    b = c.get_bounding_box()
    e.translate(*d)
    got = c.get_bounding_box()
    ensure(float(numpy.abs(got - b - numpy.array(d)).max()) < 1e-9, "box", got.tolist(), "was", b.tolist(), "moved by", d)


def check_shared(case, ctx):
    """References change while their cell is still reached another way."""
    leaves, outside, top, act, by_name = case
    A, D, B, X = (gdspy.Cell(n) for n in "ADBX")
    A.add(gdspy.Polygon(leaves[0]))
    D.add(gdspy.Polygon(leaves[1]))
    tg = {"A": A, "D": D, "B": B}
    B.add([gdspy.CellReference(A, o) for o in outside])
    late = act in ("resolve", "named")
    for n, o in top:
        X.add(gdspy.CellReference("A" if late and n == "A" else tg[n], o, ignore_missing=True))
    lib = gdspy.GdsLibrary()
    lib.add([D, X] if late else [A, D, X], include_dependencies=False)

    def box(refs):
        pts = []
        for t, o in refs:
            q = {A: leaves[0], D: leaves[1]}.get(t)
            inner = [(x, y) for x, y in q] if q is not None else [v for w in outside for v in [(x + w[0], y + w[1]) for x, y in leaves[0]]]
            pts += [(x + o[0], y + o[1]) for x, y in inner]
        return numpy.array([numpy.min(pts, axis=0), numpy.max(pts, axis=0)], dtype=float) if pts else None

    refs = [(tg[n], o) for n, o in top]
    scale = 100
    compare(X, box([(t, o) for t, o in refs if not (late and t is A)]), "before", scale)
    for r, (t, o) in zip(X.references, refs):
        if late and t is A:
            ensure(r.get_bounding_box() is None, "box of a missing cell")
            continue
        compare(r, box([(t, o)]), "reference before", scale)
    if act == "remove":
        lib.remove("A" if by_name else A)
        refs = [(t, o) for t, o in refs if t is not A]
    elif late:
        # the missing cell is found at last, perhaps known already
        lib.replace_references("A", D if act == "resolve" else "D")
        refs = [(D if t is A else t, o) for t, o in refs]
    elif act == "replace":
        lib.replace_references("A" if by_name else A, D)
        refs = [(D if t is A else t, o) for t, o in refs]
    else:
        E = gdspy.Cell("A")
        E.add(gdspy.Polygon(leaves[1]))
        lib.add(E, overwrite_duplicate=True, update_references=True)
        refs = [(D if t is A else t, o) for t, o in refs]
    compare(X, box(refs), "after " + act, scale)
    for r, (t, o) in zip(X.references, refs):
        compare(r, box([(t, o)]), "reference after " + act, scale)
    ctx.nt(len(top) > 1 and any(n == "A" for n, _ in top))
    ctx.label(act)


tri = st.lists(H.pt, min_size=3, max_size=4)
SUBS = [
    Sub(
        "shared",
        st.tuples(
            st.tuples(tri, tri), st.lists(H.pt, min_size=1, max_size=2), st.lists(st.tuples(st.sampled_from(["A", "A", "B", "D"]), H.pt), min_size=1, max_size=4),
            st.sampled_from(["remove", "replace", "overwrite", "resolve", "named"]), st.booleans(),
        ),
        check_shared, 1200,
    ),
    Sub("history", st.tuples(H.cells(labels=False, maxcells=3), st.lists(op, min_size=1, max_size=12)), check, 3200),
    Sub("inplace", st.just(([(0, 0), (1, 0), (1, 1)], (0, 0))), check_inplace, 1, 1),
]
