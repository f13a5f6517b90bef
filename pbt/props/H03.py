"""Flattening."""
import gdspy
import hier as H
import H01
import H02
import numpy
import oracle
from build import snap_cell
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Random acyclic hierarchies with every kind of element (see H02); the top cell is flattened, with or without earlier "
    "queries and single layer, datatype and texttype, and its elements are compared with those the independent model "
    "places; the other cells are compared with snapshots. Non-trivial: an element came through a reference."
)
ASSUMPTIONS = ["polygons of a path in its own cell are taken from the path (decided by P03 and P07)"]


def check(case, ctx):
    spec, (sl, sd, stt), before = case
    top = len(spec) - 1
    if H.size(spec, top) > 60:
        spec = spec[:2]
        top = len(spec) - 1
    objs = H.make(spec)
    cell = objs[top]
    t = 1e-9 * H.scale_of(spec)
    maps = list(H.instances(spec, top))
    bb = H.bbox(spec, top)
    if before:
        cell.get_bounding_box()
        cell.get_polygons()
    others = [snap_cell(c) for c in objs[:-1]]
    out = cell.flatten(**{k: v for k, v in (("single_layer", sl), ("single_datatype", sd), ("single_texttype", stt)) if v is not None})
    ensure(out is cell, "flatten must return the cell itself")
    ensure(cell.references == [], "references left", cell.references)
    ensure([snap_cell(c) for c in objs[:-1]] == others, "flattening changed another cell")

    over = lambda v, o: v if o is None else o
    spec2 = [
        (
            [([(p, over(a, sl), over(b, sd)) for p, a, b in ps], pr) for ps, pr in c[0]],
            [tuple(s[:4]) + ([over(a, sl) for a in s[4]], [over(a, sd) for a in s[5]]) + tuple(s[6:]) for s in c[1]],
            [tuple(s[:6]) + (over(s[6], sl), over(s[7], stt)) + tuple(s[8:]) for s in c[2]],
            c[3],
        )
        for c in spec
    ]
    originals = {}
    for k, c in enumerate(spec2):
        for j, s in enumerate(c[1]):
            o = H.make_path(s)
            originals[k, j] = (s, o, o.get_polygons(True))
    cells = [(m, k) for kind, m, k in maps]
    H02.match(cell.polygons, [(m, s) for m, k in cells for s in spec2[k][0]], H02.same_pset(t), "polygon sets")
    H02.match(cell.paths, [(m, (k, j)) for m, k in cells for j in range(len(spec2[k][1]))], H02.same_path(t, originals), "paths")
    H02.match(cell.labels, [(m, s) for m, k in cells for s in spec2[k][2]], H02.same_label(t, False), "labels")
    got = cell.get_bounding_box()
    ensure((got is None) == (bb is None), "bounding box", got, "before flattening", bb)
    if bb is not None:
        # round ends are approximated by other points after transformations
        lim = t + 0.03 * max([1.0] + [H02.lin(m)[1] for m, k in cells])
        ensure(oracle.close(got, bb, lim), "bounding box", got.tolist(), "before flattening", bb.tolist())
    # later changes do not reach the other cells
    for e in cell.polygons:
        e.translate(5, 5)
    for e in cell.paths:
        e.translate(5, 5)
    for e in cell.labels:
        e.translate(5, 5)
    if len(objs) > 1:
        ensure([snap_cell(c) for c in objs[:-1]] == others, "changing the flat cell changed another cell")
    n = sum(len(spec[k][0]) + len(spec[k][1]) + len(spec[k][2]) for m, k in cells[1:])
    ctx.nt(n > 0)
    ctx.label("layer %s" % (sl is not None), "datatype %s" % (sd is not None), "texttype %s" % (stt is not None), "queried before" if before else "fresh")


opt = st.one_of(st.none(), st.integers(0, 9))
SUBS = [Sub("flatten", st.tuples(H.cells(), st.tuples(opt, opt, opt), st.booleans()), check, 2400)]
