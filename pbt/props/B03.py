"""Slicing."""
import gdspy
import numpy
import oracle
import regions as R
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Random polygon lists (simple, rectilinear, keyhole, self-intersecting, degenerate) sliced at 0 to 6 positions along either "
    "axis. Non-trivial: at least two groups have polygons."
)
ASSUMPTIONS = ["tolerance: two precision steps times the edge lengths; groups are bounded by the positions within two precision steps"]

pos = st.one_of(st.integers(-15, 15), st.integers(-30, 30).map(lambda k: k / 2), st.integers(-15000, 15000).map(lambda k: k / 1000),
                st.integers(-15000, 15000).map(lambda k: k / 997.0), st.sampled_from([-1e6, 1e6]))
positions = st.one_of(st.tuples(st.just("one"), pos), st.tuples(st.just("list"), st.lists(pos, max_size=6)), st.tuples(st.just("list"), st.lists(pos, min_size=2, max_size=5)))
tag = st.one_of(st.integers(0, 255), st.lists(st.integers(0, 255), min_size=1, max_size=4))


def check(case, ctx):
    polys, ps, axis, prec, layer, datatype, form = case
    arg = ps[1]
    cuts = [arg] if ps[0] == "one" else sorted(arg)
    given = list(arg) if ps[0] == "list" else arg
    obj = polys
    if form == "pset":
        obj = gdspy.PolygonSet(polys, 9, 9)
    elif form == "mixed":
        obj = [gdspy.PolygonSet(polys[:1], 9, 9)] + [numpy.array(p) for p in polys[1:]]
    kw = {} if prec == 1e-3 else {"precision": prec}
    out = gdspy.slice(obj, given, axis, layer=layer, datatype=datatype, **kw)
    ensure(given == arg, "positions changed")
    ensure(isinstance(out, list) and len(out) == len(cuts) + 1, "number of groups", len(out), "for", cuts)
    g = R.on_grid(polys, prec)
    lim = 2 * prec * R.length(g) + 16 * prec ** 2
    groups = []
    bounds = [-numpy.inf] + list(cuts) + [numpy.inf]
    ll = layer if isinstance(layer, list) else [layer]
    dd = datatype if isinstance(datatype, list) else [datatype]
    for i, s in enumerate(out):
        if s is None:
            groups.append([])
            continue
        ensure(len(s.polygons) > 0, "empty group is not None")
        ensure(len(s.layers) == len(s.datatypes) == len(s.polygons), "tags")
        ensure(all(x == ll[i % len(ll)] for x in s.layers), "layers of group", i, s.layers, ll)
        ensure(all(x == dd[i % len(dd)] for x in s.datatypes), "datatypes of group", i, s.datatypes, dd)
        P = [numpy.asarray(p) for p in s.polygons]
        for p in P:
            lo, hi = p[:, axis].min(), p[:, axis].max()
            ensure(lo >= bounds[i] - 2.1 * prec and hi <= bounds[i + 1] + 2.1 * prec, "group", i, "outside of its interval", lo, hi, bounds)
        groups.append(P)
    every = [p for P in groups for p in P]
    lim += 2 * prec * R.length(every)
    # one polygon at a time: slicing works polygon by polygon
    d = oracle.xor_area(g, every)
    ensure(d <= lim, "region differs by", d, "limit", lim)
    for i in range(len(groups)):
        for j in range(i):
            if groups[i] and groups[j]:
                o = oracle.measure([groups[i], groups[j]], lambda w: (w[..., 0] != 0) & (w[..., 1] != 0))
                ensure(o <= lim, "groups", j, i, "overlap", o)
    # multiplicity: overlapping polygons are sliced one by one
    multi = lambda ps: sum(oracle.union_area([p]) for p in ps)
    a, b = multi(g), multi(every)
    ensure(abs(a - b) <= lim * (1 + len(cuts)), "areas of the polygons", a, b)
    ctx.nt(sum(1 for P in groups if P) > 1)
    ctx.label("axis %d" % axis, "%d cuts" % len(cuts), form)


SUBS = [
    Sub("slice", st.tuples(R.polys1, positions, st.integers(0, 1), R.precision, tag, tag, st.sampled_from(["list", "pset", "mixed"])), check, 4000),
]
