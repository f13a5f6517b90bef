"""Adding elements and removing them by test."""
import gdspy
import hier as H
import numpy
from build import snap, snap_cell
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Random hierarchies whose top cell gets elements singly, in lists, tuples, generators and other iterables, and then a "
    "sequence of removals by predicates on vertices, layers, types, text or call number; elements and call arguments are "
    "compared with list filters over snapshots. Non-trivial: a removal deletes some elements and keeps others."
)

pred = st.one_of(
    st.tuples(st.just("layer"), H.layer),
    st.tuples(st.just("type"), H.layer),
    st.tuples(st.just("both"), H.layer, H.layer),
    st.tuples(st.just("size"), st.integers(3, 8)),
    st.tuples(st.just("left"), st.integers(-10, 10)),
    st.tuples(st.just("calls"), st.lists(st.booleans(), min_size=1, max_size=5)),
    st.tuples(st.just("truthy"), st.integers(0, 3)),
    st.just(("all",)),
    st.just(("none",)),
)
rm = st.tuples(st.sampled_from(["polygons", "polygons", "paths", "labels"]), pred)


def decide(p, n, pts, layer, typ):
    k = p[0]
    if k == "layer":
        return layer == p[1]
    if k == "type":
        return typ == p[1]
    if k == "both":
        return layer == p[1] and typ == p[2]
    if k == "size":
        return len(pts) > p[1]
    if k == "left":
        return bool(numpy.any(numpy.asarray(pts)[:, 0] < p[1]))
    if k == "calls":
        return p[1][n % len(p[1])]
    if k == "truthy":
        return [] if (layer + typ) % 4 != p[1] else "yes"
    return k == "all"


def data(e):
    if isinstance(e, gdspy.Label):
        return [e.position], e.layer, e.texttype
    return (e.points if isinstance(e, gdspy.FlexPath) else [e.x, e.x]), e.layers[0], e.datatypes[0]


def lst(cell):
    return (cell.polygons, cell.paths, cell.labels, cell.references)


class Odd:
    """An iterable that is not a list."""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


def check(case, ctx):
    spec, how, removals = case
    objs = H.make(spec)
    top = objs[-1]
    els = list(top)
    cell = gdspy.Cell("NEW")
    # add everything again in the given groups
    i = 0
    added = []
    while i < len(els):
        kind, n = how[len(added) % len(how)]
        group = els[i : i + n]
        if kind == "one":
            group = group[:1]
            ret = cell.add(group[0])
        elif kind == "list":
            ret = cell.add(list(group))
        elif kind == "tuple":
            ret = cell.add(tuple(group))
        elif kind == "gen":
            ret = cell.add(e for e in group)
        else:
            ret = cell.add(Odd(group))
        ensure(ret is cell, "add must return the cell")
        i += len(group)
        added.append(kind)
    for a, b in zip(lst(cell), lst(top)):
        ensure(len(a) == len(b) and all(x is y for x, y in zip(a, b)), "added elements")
    others = [snap_cell(c) for c in objs[:-1]]
    partial = False
    for what, p in removals:
        calls = []
        if what == "polygons":
            items = [(e, [(q.tolist(), l, d) for q, l, d in zip(e.polygons, e.layers, e.datatypes)]) for e in cell.polygons]
            flat = [x for _, v in items for x in v]
            keep = [not decide(p, n, *x) for n, x in enumerate(flat)]
            it = iter(keep)
            exp = []
            for e, v in items:
                w = [x for x in v if next(it)]
                if w:
                    exp.append((e, w))
            rest = [[snap(x) for x in l] for l in lst(cell)[1:]]
            pr = [dict(e.properties) for e, _ in exp]

            def test(pts, layer, datatype):
                calls.append((pts.tolist(), layer, datatype))
                return decide(p, len(calls) - 1, pts, layer, datatype)

            ret = cell.remove_polygons(test)
            ensure(calls == flat, "calls of the test", calls, "expected", flat)
            got = [(e, [(q.tolist(), l, d) for q, l, d in zip(e.polygons, e.layers, e.datatypes)]) for e in cell.polygons]
            ensure([g[1] for g in got] == [e[1] for e in exp], "left", got, "expected", exp)
            ensure(all(g[0] is e[0] for g, e in zip(got, exp)), "polygon sets were replaced")
            ensure([dict(e.properties) for e in cell.polygons] == pr, "properties")
            for e in cell.polygons:
                ensure(len(e.polygons) == len(e.layers) == len(e.datatypes), "layers and datatypes do not match the polygons")
            ensure([[snap(x) for x in l] for l in lst(cell)[1:]] == rest, "other elements changed")
            partial |= 0 < sum(keep) < len(keep)
        else:
            src = cell.paths if what == "paths" else cell.labels
            items = list(src)
            keep = [not decide(p, n, *data(e)) for n, e in enumerate(items)]
            state = [snap(e) for e in items]
            others_e = [[snap(x) for x in l] for l in lst(cell) if l is not src]

            def test(e):
                calls.append(e)
                return decide(p, len(calls) - 1, *data(e))

            ret = cell.remove_paths(test) if what == "paths" else cell.remove_labels(test)
            now = cell.paths if what == "paths" else cell.labels
            ensure(len(calls) == len(items) and all(a is b for a, b in zip(calls, items)), "calls of the test")
            exp = [e for e, k in zip(items, keep) if k]
            ensure(len(now) == len(exp) and all(a is b for a, b in zip(now, exp)), what, "left", len(now), "expected", len(exp))
            ensure([snap(e) for e in now] == [s for s, k in zip(state, keep) if k], "an element changed")
            ensure([[snap(x) for x in l] for l in lst(cell) if l is not now] == others_e, "other elements changed")
            partial |= 0 < sum(keep) < len(keep)
        ensure(ret is cell, "removal must return the cell")
        ctx.label(what, p[0])
        ensure([snap_cell(c) for c in objs[:-1]] == others, "another cell changed")
    for bad in (3, "text", [gdspy.Rectangle((0, 0), (1, 1)), "x"], [None], object()):
        try:
            cell.add(bad)
        except (ValueError, TypeError):
            pass
        else:
            raise AssertionError("added %r" % (bad,))
    for l in lst(cell):
        for e in l:
            ensure(isinstance(e, (gdspy.PolygonSet, gdspy.FlexPath, gdspy.RobustPath, gdspy.Label, gdspy.CellReference, gdspy.CellArray)), "foreign element", e)
    # what is left goes on working
    for e in list(cell.polygons):
        e.layers.append(99)
        e.datatypes.append(98)
        e.polygons.append(numpy.array([(0.0, 0), (9, 0), (9, 5), (5, 8), (2, 9), (0, 4)]))
        ensure(e.fracture(5) is e and max(len(p) for p in e.polygons) <= 5, "fracture after a removal")
        ensure(len(e.polygons) == len(e.layers) == len(e.datatypes) and e.layers.count(99) == 2 == e.datatypes.count(98), "tags after a removal", e.layers)
    ctx.nt(partial)


full = st.tuples(
    st.lists(H.pset, min_size=2, max_size=5), st.lists(H.path, max_size=4), st.lists(H.label, max_size=4), st.lists(st.one_of(H.ref, H.arr), max_size=3)
)
SUBS = [
    Sub(
        "add_remove",
        st.tuples(
            st.tuples(H.cells(maxcells=2, labels=False), full).map(lambda t: t[0] + [t[1]]),
            st.lists(st.tuples(st.sampled_from(["one", "list", "tuple", "gen", "odd"]), st.integers(1, 4)), min_size=1, max_size=4),
            st.lists(rm, min_size=1, max_size=4),
        ),
        check, 2400,
    )
]
