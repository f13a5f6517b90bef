"""Copies of cells."""
import copy
import math

import gdspy
import hier as H
import H01
import H02
import numpy
from build import snap_cell, set_props
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Random acyclic hierarchies with every kind of element; the top cell is copied with a random combination of "
    "translation, rotation, scale, reflection and deep flag, and the placed polygons, paths and labels of the copy are "
    "compared with the transformed ones of the model; then the copy and the original are changed in turn and the other is "
    "compared with a snapshot. Non-trivial: a transformation or a deep copy of a cell with elements or references."
)
ASSUMPTIONS = ["polygons of a path in its own cell are taken from the path (decided by P03 and P07)"]


def spoil(cell):
    """Change everything reachable from a cell without entering other cells."""
    for e in cell.polygons:
        for p in e.polygons:
            p += 500
        e.layers[0] = 99
        e.datatypes[0] = 99
        e.properties[99] = "changed"
    for e in cell.paths:
        e.translate(7, 7)
        e.layers[0] = 99
        e.properties[99] = "changed"
    for e in cell.labels:
        e.translate(3, 3)
        e.text = "changed"
        e.properties[99] = "changed"
    for r in cell.references:
        r.translate(2, 2)
        r.rotation = 12
        r.properties[99] = "changed"
    cell.add(gdspy.Rectangle((0, 0), (1, 1)))
    cell.add(gdspy.Label("new", (0, 0)))
    cell.add(gdspy.CellReference("NEW", ignore_missing=True))
    cell.add(gdspy.FlexPath([(0, 0), (1, 1)], 1))


def check(case, ctx):
    spec, deep, tr, ro, sc, xr = case
    top = len(spec) - 1
    if H.size(spec, top) > 60:
        spec = spec[:2]
        top = len(spec) - 1
    objs = H.make(spec)
    cell = objs[top]
    before = [snap_cell(c) for c in objs]
    kw = {}
    if tr is not None:
        kw["translation"] = tr
    if ro is not None:
        kw["rotation"] = ro
    if sc is not None:
        kw["scale"] = sc
    if xr:
        kw["x_reflection"] = True
    if deep:
        kw["deep_copy"] = True
    new = cell.copy("COPY", **kw)
    ensure(isinstance(new, gdspy.Cell) and new is not cell and new.name == "COPY", "new cell", new)
    ensure([snap_cell(c) for c in objs] == before, "copying changed the original")
    a = ro or 0
    s = 1 if sc is None else sc
    A = numpy.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]]) @ numpy.diag([1.0, -1.0 if xr else 1.0]) * s
    T = (A, numpy.array(tr if tr is not None else (0, 0), dtype=float))
    tol = 1e-9 * H.scale_of(spec) * max(1, s)
    maps = [(kind, H.compose(T, m), k) for kind, m, k in H.instances(spec, top)]
    cells = [(m, k) for kind, m, k in maps]
    originals = {}
    for k, c in enumerate(spec):
        for j, q in enumerate(c[1]):
            o = H.make_path(q)
            originals[k, j] = (q, o, o.get_polygons(True))
    own = spec[top]
    # direct elements
    H02.match(new.polygons, [(T, q) for q in own[0]], H02.same_pset(tol), "polygon sets of the copy")
    H02.match(new.paths, [(T, (top, j)) for j in range(len(own[1]))], H02.same_path(tol, originals), "paths of the copy")
    transformed = any(v is not None for v in (tr, ro, sc)) or xr
    H02.match(new.labels, [(T, q) for q in own[2]], H02.same_label(tol, transformed), "labels of the copy")
    ensure(len(new.references) == len(own[3]), "references of the copy", len(new.references))
    for r, o in zip(new.references, cell.references):
        ensure(type(r) is type(o) and r.ref_cell is o.ref_cell and r.properties == o.properties, "reference of the copy", r, o)
    # through references
    ctx_psets = [(m, q) for m, k in cells for q in spec[k][0]]
    H02.match(new.get_polygonsets(), ctx_psets, H02.same_pset(tol), "polygon sets through the copy")
    lab = [(m, q) for m, k in cells for q in spec[k][2]]
    if transformed:
        H02.match(new.get_labels(set_transform=True), lab, H02.same_label(tol, True), "labels through the copy")
    pa = [(m, (k, j)) for m, k in cells for j in range(len(spec[k][1]))]
    H02.match(new.get_paths(), pa, H02.same_path(tol, originals), "paths through the copy")

    if deep or transformed:
        ids = set(map(id, cell))
        ensure(not any(id(e) in ids for e in new), "a deep copy shares an element")
        state = snap_cell(new)
        spoil(new)
        ensure([snap_cell(c) for c in objs] == before, "changing the copy changed the original")
        new2 = cell.copy("COPY2", **kw)
        state = snap_cell(new2)
        spoil(cell)
        ensure(snap_cell(new2) == state, "changing the original changed the copy")
    else:
        for f in ("polygons", "paths", "labels", "references"):
            x, y = getattr(new, f), getattr(cell, f)
            ensure(x is not y and len(x) == len(y) and all(p is q for p, q in zip(x, y)), "a shallow copy holds the same elements:", f)
        new.add(gdspy.Rectangle((0, 0), (1, 1)))
        new.add(gdspy.Label("new", (0, 0)))
        new.add(gdspy.CellReference("NEW", ignore_missing=True))
        new.add(gdspy.FlexPath([(0, 0), (1, 1)], 1))
        ensure([snap_cell(c) for c in objs] == before, "adding to the copy changed the original")
    ctx.nt((deep or transformed) and any(own))
    ctx.label("transformed" if transformed else "deep" if deep else "shallow")
    for s_ in own[3]:
        ctx.label(s_[0])


T = st.tuples(
    st.one_of(st.none(), H.pt),
    st.one_of(st.none(), st.sampled_from([0, math.pi / 2, math.pi, -math.pi / 2]), st.integers(-70, 70).map(lambda k: k / 10)),
    st.one_of(st.none(), st.sampled_from([1, 2, 0.5]), st.integers(100, 3000).map(lambda k: k / 1000)),
    st.booleans(),
)
one = st.sampled_from([(1.5, -2), (0, 0)]).map(lambda d: (d, None, None, False))
none = st.just((None, None, None, False))
how = st.one_of(
    st.tuples(st.just(True), none), st.tuples(st.booleans(), T), st.tuples(st.booleans(), T), st.tuples(st.booleans(), st.one_of(none, one)),
).map(lambda t: (t[0],) + t[1])
SUBS = [Sub("copy", st.tuples(H.cells(), how).map(lambda t: (t[0],) + t[1]), check, 2000)]
