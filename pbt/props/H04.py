"""Areas through the hierarchy."""
import gdspy
import hier as H
import numpy
import oracle
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Random acyclic hierarchies (see H01); area() and area(True) of every element, reference and cell are compared with "
    "shoelace sums over independently placed polygons. Non-trivial: the top cell reaches polygons of non-zero area "
    "through a reference with a magnification or an array."
)
ASSUMPTIONS = ["polygons of a path are taken from the path (decided by P03 and P07)"]


def sums(items):
    d = {}
    for p, a, b in items:
        d[a, b] = d.get((a, b), 0.0) + oracle.area(p)
    return d


def compare(obj, exp, scale, what):
    got = obj.area(True)
    ensure(isinstance(got, dict) and set(got) == set(exp), what, "keys", sorted(got), "expected", sorted(exp))
    lim = 1e-9 * scale
    for k in exp:
        ensure(abs(got[k] - exp[k]) <= lim, what, k, got[k], "expected", exp[k])
    tot = obj.area()
    ensure(abs(tot - sum(exp.values())) <= lim * max(1, len(exp)), what, "total", tot, "expected", sum(exp.values()))
    tot = obj.area(by_spec=False)
    ensure(abs(tot - sum(exp.values())) <= lim * max(1, len(exp)), what, "total", tot)


def weight(spec, i):
    """Magnitude of the terms that are added, for the tolerance."""
    tot = 1.0
    for p, a, b in H.placed_polygons(spec, i)[0]:
        q = numpy.asarray(p)
        tot += float(numpy.abs(q).max() + 1) * float(numpy.ptp(q, axis=0).max() + 1)
    return tot


def check(case, ctx):
    spec, touch = case
    top = len(spec) - 1
    if H.size(spec, top) > 150:
        spec = spec[:2]
        top = len(spec) - 1
    objs = H.make(spec)
    placed = H.placed_polygons(spec, top)[0]
    w = weight(spec, top) * 10
    if touch:
        objs[top].area(True)
        objs[top].get_polygons(True)
    exp = sums(placed)
    compare(objs[top], exp, w, "cell")
    for i, c in enumerate(spec):
        own = H.own_polygons(spec, i)
        for e, (ps, _) in zip(objs[i].polygons, c[0]):
            compare(e, sums((numpy.asarray(p, dtype=float), a, b) for p, a, b in ps), w, "polygon set")
        for e, s in zip(objs[i].paths, c[1]):
            compare(e, sums((p, a, b) for (a, b), v in H.make_path(s).get_polygons(True).items() for p in v), w, "path")
    for r, s in zip(objs[top].references, spec[top][3]):
        k = H.tgt(top, s[1])
        if isinstance(k, str):
            compare(r, {}, w, "unresolved reference")
            continue
        own = H.placed_polygons(spec, k)[0]
        compare(r, sums((H.apply(m, p), a, b) for m in H.ref_maps(s) for p, a, b in own), w, "reference")
    ctx.nt(any(v > 1e-3 for v in exp.values()) and any((s[0] == "arr" or s[-3] not in (None, 1)) and not isinstance(H.tgt(top, s[1]), str) for s in spec[top][3]))
    ctx.label("cells %d" % len(spec))


SUBS = [Sub("area", st.tuples(H.cells(labels=False), st.booleans()), check, 3000)]
