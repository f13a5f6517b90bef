"""Placement of polygons by references and arrays."""
import numpy

import gdspy
import hier as H
import oracle
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Random acyclic hierarchies of up to 4 cells with polygon sets, paths, references and arrays with random "
    "transformations; get_polygons of the top cell and of every reference, for all filters and depths, is compared "
    "vertex by vertex with polygons placed by an independent affine model. Non-trivial: the top cell places a "
    "polygon through a reference that transforms or repeats."
)
ASSUMPTIONS = ["polygons of a path in its own cell are taken from the path (decided by P03 and P07)"]


def tol(spec):
    return 1e-11 * H.scale_of(spec) * 100


def same(A, B, t, what):
    """Multisets of vertex arrays."""
    ensure(len(A) == len(B), what, "number of polygons", len(A), "expected", len(B))
    if all(a.shape == b.shape and (a.size == 0 or float(numpy.abs(a - b).max()) <= t) for a, b in zip(A, B)):
        return
    ensure(oracle.same_multiset(A, B, t), what, "polygons differ:", [a.tolist() for a in A][:4], "expected", [b.tolist() for b in B][:4])


def group(items):
    d = {}
    for p, a, b in items:
        d.setdefault((a, b), []).append(p)
    return d


def boxes_of(spec, boxes):
    """Placed bounding rectangles: (name, vertices)."""
    out = []
    for m, k in boxes:
        bb = H.bbox(spec, k)
        if bb is not None:
            (x0, y0), (x1, y1) = bb
            out.append(("C%d" % k, H.apply(m, [(x0, y0), (x0, y1), (x1, y1), (x1, y0)])))
    return out


def rect_same(A, B, t, what):
    """Rectangles compared by vertex sets (any starting corner or sense)."""
    key = lambda p: p[numpy.lexsort((numpy.round(p[:, 1] / t / 4), numpy.round(p[:, 0] / t / 4)))]
    ensure(len(A) == len(B), what, "number of boxes", len(A), len(B))
    used = [False] * len(B)
    for a in A:
        ok = False
        for j, b in enumerate(B):
            if not used[j] and a.shape == b.shape:
                d = numpy.abs(a[:, None, :] - b[None]).max(axis=2) <= t
                if d.any(axis=1).all() and d.any(axis=0).all():
                    used[j] = ok = True
                    break
        ensure(ok, what, "box", a.tolist(), "expected", [b.tolist() for b in B][:4])


def verify(obj, spec, placed, boxes, depth, t, what):
    exp = group(placed)
    bx = boxes_of(spec, boxes)
    kw = {} if depth is None else {"depth": depth}
    # by specification
    got = obj.get_polygons(by_spec=True, **kw)
    ensure(isinstance(got, dict), what, "dictionary", got)
    names = set(n for n, _ in bx)
    ensure(set(got) == set(exp) | names, what, "keys", sorted(map(str, got)), "expected", sorted(map(str, set(exp) | names)))
    for k in exp:
        same(got[k], exp[k], t, "%s %s" % (what, k))
    for n in names:
        rect_same(got[n], [p for m, p in bx if m == n], t, "%s box of %s" % (what, n))
    # all
    got = obj.get_polygons(**kw)
    ensure(isinstance(got, list), what, "list", got)
    allp = [p for p, _, _ in placed]
    if not bx:
        same(got, allp, t, what + " all")
    else:
        ensure(len(got) == len(allp) + len(bx), what, "number of polygons", len(got), len(allp), len(bx))
        rest = list(got)
        for p in allp:
            for j, q in enumerate(rest):
                if q.shape == p.shape and (p.size == 0 or float(numpy.abs(q - p).max()) <= t):
                    del rest[j]
                    break
            else:
                raise AssertionError("%s: polygon %s is missing" % (what, p.tolist()))
        rect_same(rest, [p for _, p in bx], t, what + " boxes")
    # one specification only
    for k in list(exp)[:2] + [(9, 9)]:
        got = obj.get_polygons(by_spec=k, **kw)
        same(got, exp.get(k, []), t, "%s filter %s" % (what, k))


def check(case, ctx):
    spec, depth = case
    top = len(spec) - 1
    if H.size(spec, top) > 120:
        spec = spec[:2]
        top = len(spec) - 1
    objs = H.make(spec)
    t = tol(spec)
    placed, boxes = H.placed_polygons(spec, top, depth)
    verify(objs[top], spec, placed, boxes, depth, t, "cell")
    for r, s in zip(objs[top].references, spec[top][3]):
        k = H.tgt(top, s[1])
        if isinstance(k, str):
            ensure(r.get_polygons() == [] and r.get_polygons(True) == {} and r.get_polygons((0, 0)) == [], "unresolved reference")
            continue
        own, bx = H.placed_polygons(spec, k, depth) if depth is None or depth >= 0 else ([], [(H.ID, k)])
        maps = H.ref_maps(s)
        verify(
            r, spec, [(H.apply(m, p), a, b) for m in maps for p, a, b in own],
            [(H.compose(m, b), kk) for m in maps for b, kk in bx], depth, t, "reference",
        )
    n_ref = len(placed) - len(H.own_polygons(spec, top))
    ctx.nt(n_ref > 0 and H.interesting(spec, top))
    ctx.label("depth %s" % depth, "boxes" if boxes else "no boxes", "cells %d" % len(spec))


SUBS = [Sub("polygons", st.tuples(H.cells(labels=False), st.sampled_from([None, None, None, 0, 0, 1, 2])), check, 4000)]
