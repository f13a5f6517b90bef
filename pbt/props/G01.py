"""GDSII write -> read round trip."""
import io
import math
import os
import pathlib
import shutil
import tempfile
import warnings

import numpy

import gdspy
import gds
import gen
import libspec as L
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Random libraries (1-4 cells with polygons, polygon sets, GDSII paths from both path classes, "
    "labels, references, arrays, properties, 10 unit/precision pairs, on- and off-grid coordinates) are "
    "written to streams, files and paths, entirely or in part, read back with every unit mode and compared with the generating specification element by "
    "element. Non-trivial: at least two element kinds are present, or an element has properties, or a "
    "reference resolves."
)
ASSUMPTIONS = [
    "coordinates fit the 4-byte integers of the format; text, names and property values are non-empty printable ASCII"
]


def snap(v, u, p):
    """Grid coordinates (real numbers, unrounded)."""
    return numpy.asarray(v, dtype=float) * (u / p)


def near_grid(actual, v, mult, grid, what):
    """actual (user units) is v rounded to the grid."""
    k = numpy.asarray(actual, dtype=float) / grid
    kr = numpy.round(k)
    big = max(1.0, float(numpy.max(numpy.abs(kr), initial=1)))
    ensure(float(numpy.max(numpy.abs(k - kr), initial=0)) <= 1e-6 + big * 1e-14 * 8, what, "is off the grid", actual)
    d = kr - numpy.asarray(v, dtype=float) * mult
    ensure(
        float(numpy.max(numpy.abs(d), initial=0)) <= 0.5 + 1e-9 * big + 1e-6,
        what, "not rounded to the nearest grid point:", actual, "for", v,
    )


def end_pair(en):
    return isinstance(en, (tuple, list))


def compare(spec, lib, scale, grid, outer):
    """lib holds spec with user coordinates multiplied by `scale`."""
    u, p = spec["units"]
    mult = u / p / scale  # user units of lib -> database units

    def chk(actual, v, what):
        near_grid(actual, numpy.asarray(v, dtype=float) * scale, mult, grid, what)

    names = spec["names"][: len(spec["cells"])]
    ensure(list(lib.cells) == names, "cell names", list(lib.cells), names)
    for i, (polys, paths, labels, refs) in enumerate(spec["cells"]):
        c = lib.cells[names[i]]
        ensure(c.name == names[i], "cell name", c.name)
        exp = [(pts, ly, dt, pr) for kind, ptss, ly, dt, pr in polys for pts in ptss]
        ensure(len(c.polygons) == len(exp), "number of polygons", len(c.polygons), len(exp))
        for el, (pts, ly, dt, pr) in zip(c.polygons, exp):
            ensure(len(el.polygons) == 1 and el.polygons[0].shape == (len(pts), 2), "polygon shape", el.polygons, pts)
            chk(el.polygons[0], pts, "polygon")
            ensure(list(el.layers) == [ly] and list(el.datatypes) == [dt], "polygon layer/datatype", el.layers, el.datatypes, ly, dt)
            ensure(dict(el.properties) == L.norm_props(pr), "polygon properties", el.properties, pr)
        ensure(len(c.paths) == len(paths), "number of paths", len(c.paths), len(paths))
        for el, s in zip(c.paths, paths):
            kind, pts, w, en, ly, dt, wt, pr = s
            ensure(isinstance(el, gdspy.FlexPath) and el.gdsii_path, "path type", el)
            ensure(el.n == 1 and list(el.layers) == [ly] and list(el.datatypes) == [dt], "path layer", el.layers, el.datatypes)
            ensure(el.points.shape == (len(pts), 2), "path points", el.points, pts)
            chk(el.points, pts, "path points")
            ensure(el.widths.shape == (len(pts), 1) and float(numpy.abs(el.offsets).max()) == 0, "path widths/offsets", el.widths, el.offsets)
            chk(el.widths[0, 0], w, "path width")
            ensure(numpy.all(el.widths == el.widths[0, 0]), "constant width", el.widths)
            if end_pair(en):
                ensure(end_pair(el.ends[0]), "path ends", el.ends, en)
                chk(el.ends[0], en, "path extension")
            else:
                ensure(el.ends[0] == en, "path ends", el.ends, en)
            if round(w * u / p) > 0:
                ensure(bool(el.width_transform) == wt, "width_transform", el.width_transform, wt)
            ensure(dict(el.properties) == L.norm_props(pr), "path properties", el.properties, pr)
        ensure(len(c.labels) == len(labels), "number of labels", len(c.labels), len(labels))
        for el, (text, pos, an, ro, mg, xr, ly, tt, pr) in zip(c.labels, labels):
            ensure(el.text == text, "label text", repr(el.text), repr(text))
            chk(el.position, pos, "label position")
            ref = gdspy.Label("x", (0, 0), an)
            ensure(el.anchor == ref.anchor, "label anchor", el.anchor, an)
            same_transform(el, ro, mg, xr, "label")
            ensure(el.layer == ly and el.texttype == tt, "label layer/texttype", el.layer, el.texttype, ly, tt)
            ensure(dict(el.properties) == L.norm_props(pr), "label properties", el.properties, pr)
        ensure(len(c.references) == len(refs), "number of references", len(c.references), len(refs))
        for el, s in zip(c.references, refs):
            t = L.target_name(spec, i, s[1])
            if t in lib.cells:
                ensure(el.ref_cell is lib.cells[t], "reference target", el.ref_cell, t)
                outer["resolved"] = True
            else:
                ensure(el.ref_cell == t, "unresolved reference", el.ref_cell, t)
            if s[0] == "ref":
                _, _, org, ro, mg, xr, pr = s
                ensure(isinstance(el, gdspy.CellReference), "reference kind", el)
            else:
                _, _, nc, nr, sp, org, ro, mg, xr, pr = s
                ensure(isinstance(el, gdspy.CellArray), "reference kind", el)
                ensure(el.columns == nc and el.rows == nr, "array size", el.columns, el.rows, nc, nr)
                tol = grid * 1.5
                big = 4e5 * scale
                for a, e, n in zip(el.spacing, sp, (nc, nr)):
                    ensure(
                        abs(a - e * scale) <= tol / n + 1e-13 * big,
                        "array spacing", el.spacing, sp, "scale", scale,
                    )
            chk(el.origin, org, "reference origin")
            same_transform(el, ro, mg, xr, "reference")
            ensure(dict(el.properties) == L.norm_props(pr), "reference properties", el.properties, pr)


def same_transform(el, ro, mg, xr, what):
    """Identity values may come back as absent."""
    r = 0 if el.rotation is None else el.rotation
    m = 1 if el.magnification is None else el.magnification
    e = 0 if ro is None else ro
    f = 1 if mg is None else mg
    ensure(abs(r - e) <= 1e-12 * max(1, abs(e)), what, "rotation", el.rotation, ro)
    ensure(abs(m - f) <= 1e-12 * max(1, abs(f)), what, "magnification", el.magnification, mg)
    ensure(bool(el.x_reflection) == xr, what, "x_reflection", el.x_reflection, xr)


def classify(spec, ctx):
    kinds = set()
    props = False
    for polys, paths, labels, refs in spec["cells"]:
        for group, nm in ((polys, None), (paths, None), (labels, "label"), (refs, None)):
            for s in group:
                kinds.add(nm or s[0])
                props |= bool(s[-1])
    for k in kinds:
        ctx.label(k)
    if props:
        ctx.label("properties")
    ctx.nt(len(kinds) >= 2 or props)


def check_roundtrip(case, ctx):
    spec, mode, (u2, p2) = case
    if not L.fits(spec):
        # keep the library, at a coarser grid
        spec = dict(spec, units=(1e-6, 1e-9))
    u, p = spec["units"]
    lib = L.make(spec)
    data = L.write(lib, L.when(spec))
    classify(spec, ctx)
    ctx.label("units " + mode)
    outer = {}
    new = gdspy.GdsLibrary("old name", unit=u2, precision=p2)
    out = new.read_gds(io.BytesIO(data), units=mode)
    ensure(out is new, "read_gds returns the library")
    ensure(new.name == spec["name"], "library name", repr(new.name), repr(spec["name"]))
    if mode == "import":
        ensure(abs(new.unit - u) <= 1e-12 * u and abs(new.precision - p) <= 1e-12 * p, "units", new.unit, new.precision)
        compare(spec, new, 1.0, p / u, outer)
    elif mode == "skip":
        ensure(new.unit == u2 and new.precision == p2, "units changed")
        compare(spec, new, 1.0, p / u, outer)
    else:
        ensure(new.unit == u2 and new.precision == p2, "units changed")
        compare(spec, new, u / u2, p / u2, outer)
    ctx.nt("resolved" in outer)
    # what was written must not have been changed by writing or reading
    ensure(L.write(lib, L.when(spec)) == data, "writing twice gives different streams")


def check_fixpoint(spec, ctx):
    """A file that was read and is written again describes the same layout."""
    if not L.fits(spec):
        spec = dict(spec, units=(1e-6, 1e-9))
    lib = L.make(spec)
    ts = L.when(spec)
    data = L.write(lib, ts)
    classify(spec, ctx)
    two = gdspy.GdsLibrary()
    two.read_gds(io.BytesIO(data), units="import")
    data2 = L.write(two, ts)
    a, b = gds.parse(data), gds.parse(data2)
    for x, y in zip(a["units"], b["units"]):
        ensure(abs(float(x) - float(y)) <= 1e-13 * float(x), "units", a["units"], b["units"])
    a["units"] = b["units"] = None
    # the corners of a rotated array are projected on the array axes when read:
    # they may come back one grid unit off
    for x, y in zip(a["cells"], b["cells"]):
        for e, f in zip(x["elements"], y["elements"]):
            if e["kind"] == f["kind"] == "AREF" and e["angle"]:
                ensure(
                    all(abs(i - j) <= 1 for i, j in zip(e["xy"], f["xy"])) and e["xy"][:2] == f["xy"][:2],
                    "array corners", e, f,
                )
                f["xy"] = e["xy"]
    ensure(a == b, "rewriting a read file changes it:\n", diff(a, b))


def diff(a, b):
    if a["name"] != b["name"]:
        return "library name %r %r" % (a["name"], b["name"])
    for x, y in zip(a["cells"], b["cells"]):
        for e, f in zip(x["elements"], y["elements"]):
            if e != f:
                return "%r\n%r" % (e, f)
    return "%r\n%r" % (a, b)


def check_files(case, ctx):
    """Files and paths as targets and sources, and parts of the library."""
    spec, sink, source, part, how = case
    if not L.fits(spec):
        spec = dict(spec, units=(1e-6, 1e-9))
    lib = L.make(spec)
    ts = L.when(spec)
    full = gds.parse(L.write(lib, ts))
    names = list(lib.cells)
    chosen = [names[k] for k in part if k < len(names)]
    cells = {"names": chosen, "cells": [lib.cells[n] for n in chosen], "mixed": [n if i % 2 else lib.cells[n] for i, n in enumerate(chosen)], "tuple": tuple(chosen), "all": None}[how]
    if cells is None:
        chosen = names
    d = tempfile.mkdtemp(dir=os.environ.get("PBT_SCRATCH"))
    path = os.path.join(d, "a.gds")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if sink == "object":
                with open(path, "wb") as f:
                    lib.write_gds(f, cells, ts)
                    ensure(not f.closed, "a file given by the caller was closed")
            else:
                lib.write_gds(pathlib.Path(path) if sink == "path" else path, cells=cells, timestamp=ts)
        with open(path, "rb") as f:
            data = f.read()
        got = gds.parse(data)
        ensure([c["name"] for c in got["cells"]] == chosen, "cells written", [c["name"] for c in got["cells"]], "instead of", chosen)
        want = {c["name"]: c for c in full["cells"]}
        ensure(got["cells"] == [want[n] for n in chosen], "contents of the cells written")
        ensure(got["name"] == full["name"] and got["units"] == full["units"], "header")
        if source == "object":
            with open(path, "rb") as f:
                new = gdspy.GdsLibrary(infile=f, units="import")
        elif source == "read":
            new = gdspy.GdsLibrary().read_gds(pathlib.Path(path), units="import")
        else:
            new = gdspy.GdsLibrary(infile=path, units="import")
        with open(path, "rb") as f:
            ensure(f.read() == data, "reading changed the file")
        ensure(list(new.cells) == chosen, "cells read", list(new.cells))
        outer = {}
        if chosen == names:
            compare(spec, new, 1.0, spec["units"][1] / spec["units"][0], outer)
        else:
            for n in chosen:
                a, b = lib.cells[n], new.cells[n]
                ensure([len(x) for x in (a.paths, a.labels, a.references)] == [len(x) for x in (b.paths, b.labels, b.references)], "elements of", n)
                for r, q in zip(a.references, b.references):
                    t = r.ref_cell if isinstance(r.ref_cell, str) else r.ref_cell.name
                    ensure(q.ref_cell is new.cells[t] if t in chosen else q.ref_cell == t, "reference to", t, "reads", q.ref_cell)
    finally:
        shutil.rmtree(d)
    ctx.nt(sum(len(g) for c in spec["cells"] for g in c) > 0 and len(chosen) > 0)
    ctx.label(how, sink, source)


@st.composite
def big_polygon(draw):
    n = draw(st.one_of(st.integers(8185, 8195), st.integers(8189, 8191), st.integers(16378, 16386), st.integers(8190, 20000)))
    a, b = draw(st.integers(1, 97)), draw(st.integers(1, 89))
    return (n, a, b, draw(gen.layer), draw(gen.layer), draw(gen.props), draw(st.booleans()))


def check_big(case, ctx):
    """Polygons around and above the 8190-vertex record limit."""
    n, a, b, ly, dt, pr, withnext = case
    i = numpy.arange(n)
    pts = numpy.column_stack([(i * a) % 30011, (i * b) % 20011 + (i % 3)])
    lib = gdspy.GdsLibrary("L", unit=1e-6, precision=1e-9)
    c = lib.new_cell("A")
    el = gdspy.Polygon(pts, ly, dt)
    if pr:
        el.properties = dict(pr)
    c.add(el)
    if withnext:
        c.add(gdspy.Rectangle((0, 0), (1, 2), 3, 4))
    f = io.BytesIO()
    lib.write_gds(f)
    new = gdspy.GdsLibrary(infile=io.BytesIO(f.getvalue()))
    ps = new.cells["A"].polygons
    ensure(len(ps) == 1 + withnext, "polygons", len(ps))
    ensure(ps[0].polygons[0].shape == (n, 2), "vertices", ps[0].polygons[0].shape, n)
    ensure(float(numpy.abs(ps[0].polygons[0] - pts).max()) < 1e-6, "vertices differ")
    ensure(ps[0].layers == [ly] and ps[0].datatypes == [dt])
    ensure(dict(ps[0].properties) == L.norm_props(pr))
    if withnext:
        ensure(ps[1].polygons[0].shape == (4, 2) and dict(ps[1].properties) == {})
    ctx.nt(n > 8190)
    ctx.label("several XY records" if n > 8190 else "one XY record")


SUBS = [
    Sub("roundtrip", st.tuples(L.lib, st.sampled_from(["import", "skip", "convert"]), st.sampled_from(L.UNITS)), check_roundtrip, 4000),
    Sub("fixpoint", L.lib, check_fixpoint, 2400),
    Sub(
        "files",
        st.tuples(L.lib, st.sampled_from(["name", "path", "object"]), st.sampled_from(["name", "read", "object"]), st.lists(st.integers(0, 3), max_size=4, unique=True), st.sampled_from(["names", "cells", "mixed", "tuple", "all"])),
        check_files, 1200,
    ),
    Sub("big", big_polygon(), check_big, 200),
]
