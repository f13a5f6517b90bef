"""Import of streams that other tools wrote."""
import io
import os
import pathlib

import numpy

import gdspy
import foreign as F
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Streams are generated from the GDSII grammar by an independent encoder: every element kind, optional records "
    "present or absent, forward and missing references, coordinates split over several records, library head "
    "records, padding; the imported cells are compared with the specification in every unit mode. Non-trivial: at "
    "least two elements."
)
ASSUMPTIONS = [
    "arrays have orthogonal lattices aligned with their rotation (the only ones the format defines)",
    "the anchor of texts without PRESENTATION record is not judged",
]
ANCH = {(v, h): a for v, row in enumerate([("nw", "n", "ne"), ("w", "o", "e"), ("sw", "s", "se")]) for h, a in enumerate(row)}


def near(a, b, what, rel=1e-14):
    a = numpy.asarray(a, dtype=float)
    b = numpy.asarray(b, dtype=float)
    ensure(a.shape == b.shape, what, "shape", a, b)
    if a.size:
        ensure(bool(numpy.all(numpy.abs(a - b) <= rel * numpy.abs(b) + 1e-300)), what, a.tolist(), "expected", b.tolist())


def nodup(pts):
    return pts


def transf(el, e, what):
    s = e["strans"]
    ensure(bool(el.x_reflection) == bool(s is not None and s & 0x8000), what, "reflection", el.x_reflection, s)
    r = 0 if el.rotation is None else el.rotation
    m = 1 if el.magnification is None else el.magnification
    near(r, 0 if e["angle"] is None else e["angle"], what + " rotation", 1e-15)
    near(m, 1 if e["mag"] is None else e["mag"], what + " magnification", 1e-15)


def compare(spec, lib, factor):
    names = spec["names"][: len(spec["cells"])]
    ensure(list(lib.cells) == names, "cells", list(lib.cells), names)
    ensure(lib.name == spec["name"], "library name", lib.name, spec["name"])
    for n, els in zip(names, spec["cells"]):
        c = lib.cells[n]
        ensure(c.name == n, "cell name", c.name, n)
        polys, paths, labels, refs = iter(c.polygons), iter(c.paths), iter(c.labels), iter(c.references)
        count = [0, 0, 0, 0]
        for e in els:
            k = e["kind"]
            xy = numpy.array(e["xy"], dtype=float).reshape(-1, 2) * factor
            if k == "NODE":
                continue
            which = {"BOUNDARY": 0, "BOX": 0, "PATH": 1, "TEXT": 2, "SREF": 3, "AREF": 3}[k]
            count[which] += 1
            el = next((polys, paths, labels, refs)[which], None)
            ensure(el is not None, "missing element", k)
            if which == 0:
                ensure(len(el.polygons) == 1, "polygons", el.polygons)
                near(el.polygons[0], xy[:-1], k)
                ensure(list(el.layers) == [e["layer"]] and list(el.datatypes) == [e["type"]], k, "layer/datatype", el.layers, el.datatypes, e)
            elif which == 1:
                ensure(isinstance(el, gdspy.FlexPath) and el.gdsii_path and el.n == 1, "path", el)
                near(el.points, xy, "path")
                w = abs(e["width"] or 0) * factor
                near(el.widths, numpy.full((len(xy), 1), w), "path width")
                ensure(bool(el.width_transform) == ((e["width"] or 0) >= 0), "absolute width", el.width_transform, e["width"])
                ensure(numpy.all(el.offsets == 0), "offset", el.offsets)
                t = e["pathtype"]
                if t == 4:
                    ensure(isinstance(el.ends[0], tuple), "ends", el.ends, e)
                    near(el.ends[0], [(e["bgnextn"] or 0) * factor, (e["endextn"] or 0) * factor], "extensions")
                else:
                    ensure(el.ends[0] == {None: "flush", 0: "flush", 1: "round", 2: "extended"}[t], "ends", el.ends, t)
                ensure(list(el.layers) == [e["layer"]] and list(el.datatypes) == [e["type"]], k, "layer/datatype", el.layers, el.datatypes, e)
            elif which == 2:
                ensure(el.text == e["string"], "text", repr(el.text), repr(e["string"]))
                near(el.position, xy[0], "text position")
                ensure(el.layer == e["layer"] and el.texttype == e["type"], "text layer/texttype", el.layer, el.texttype, e)
                p = e["presentation"]
                if p is not None and (p & 3) < 3 and (p >> 2 & 3) < 3:
                    a = ANCH[(p >> 2 & 3, p & 3)]
                    ensure(el.anchor == gdspy.Label("x", (0, 0), a).anchor, "anchor", el.anchor, p, a)
                transf(el, e, "text")
            else:
                t = F.resolve(spec, e["sname"])
                if t in lib.cells:
                    ensure(el.ref_cell is lib.cells[t], "target", el.ref_cell, t)
                else:
                    ensure(el.ref_cell == t, "target", el.ref_cell, t)
                near(el.origin, xy[0], "origin")
                transf(el, e, k)
                if k == "SREF":
                    ensure(type(el) is gdspy.CellReference, "kind", el)
                else:
                    ensure(type(el) is gdspy.CellArray, "kind", el)
                    ensure((el.columns, el.rows) == e["colrow"], "array size", el.columns, el.rows, e["colrow"])
                    for v, s, m in zip(el.spacing, e["spacing"], e["colrow"]):
                        # corners are rounded unless the rotation is a multiple of 90 degrees
                        ensure(abs(v - s * factor) <= factor * (0.75 / m if e["angle"] else 0) + 1e-9 * factor, "spacing", el.spacing, e)
            ensure(dict(el.properties) == dict(e["props"]), k, "properties", el.properties, e["props"])
        ensure(
            [len(c.polygons), len(c.paths), len(c.labels), len(c.references)] == count,
            "number of elements", len(c.polygons), len(c.paths), len(c.labels), len(c.references), count,
        )


def check(case, ctx):
    spec, mode, target, form = case
    data = F.encode(spec)
    src = io.BytesIO(data)
    path = None
    if form != "stream":
        path = os.path.join(os.environ["PBT_SCRATCH"], "f.gds")
        with open(path, "wb") as f:
            f.write(data)
        src = path if form == "path" else pathlib.Path(path)
    dbu, dbm = spec["units"]
    # cells of the global library are unrelated, even with the same names
    gdspy.current_library = gdspy.GdsLibrary()
    if form != "path":
        gdspy.current_library.add([gdspy.Cell(n) for n in dict.fromkeys(list(spec["names"]) + [e["sname"] for c in spec["cells"] for e in c if isinstance(e.get("sname"), str)])])
    if mode == "init":
        lib = gdspy.GdsLibrary(infile=src, units="import")
        factor = dbu
    else:
        lib = gdspy.GdsLibrary(unit=target, precision=target / 1000)
        lib.read_gds(src, units=mode)
        factor = dbm / target if mode == "convert" else dbu
    if mode in ("init", "import"):
        near([lib.unit, lib.precision], [dbm / dbu, dbm], "units", 1e-15)
    else:
        ensure(lib.unit == target and lib.precision == target / 1000, "units", lib.unit, lib.precision)
    compare(spec, lib, factor)
    kinds = [e["kind"] for c in spec["cells"] for e in c]
    ctx.label(*sorted(set(kinds)))
    ctx.label("mode " + mode)
    if any(isinstance(e.get("sname"), int) and e["sname"] > i for i, c in enumerate(spec["cells"]) for e in c):
        ctx.label("forward reference")
    ctx.nt(len(kinds) >= 2)


def check_merge(case, ctx):
    """Reading into a library keeps what it holds, and resolves references of
    the new cells to it."""
    spec, keep = case
    data = F.encode(spec)
    lib = gdspy.GdsLibrary()
    kept = []
    for k in keep:
        if k not in spec["names"]:
            kept.append(lib.new_cell(k).add(gdspy.Rectangle((0, 0), (1, 2), 7)))
    lib.read_gds(io.BytesIO(data))
    names = spec["names"][: len(spec["cells"])]
    ensure(list(lib.cells) == [c.name for c in kept] + names, "cells", list(lib.cells))
    for c in kept:
        ensure(lib.cells[c.name] is c and len(c.polygons) == 1 and not c.references, "kept cell changed")
    for n, els in zip(names, spec["cells"]):
        exp = [F.resolve(spec, e["sname"]) for e in els if "sname" in e]
        for e, r in zip(exp, lib.cells[n].references):
            ensure(r.ref_cell is lib.cells.get(e, r.ref_cell) and (e in lib.cells or r.ref_cell == e), "target", r.ref_cell, e)
    ctx.nt(bool(kept) and bool(names))
    # a name that is already there is an error
    if names:
        try:
            lib.read_gds(io.BytesIO(data))
        except ValueError:
            pass
        else:
            raise AssertionError("cells with the same name were accepted")


SUBS = [
    Sub(
        "import",
        st.tuples(F.stream, st.sampled_from(["skip", "import", "convert", "init"]), st.sampled_from([1e-6, 1e-3, 1e-9, 2.54e-5]), st.sampled_from(["stream", "stream", "path", "Path"])),
        check, 6000,
    ),
    Sub("merge", st.tuples(F.stream, st.lists(st.sampled_from(["MISSING", "GONE", "k1"]), max_size=3, unique=True)), check_merge, 1500),
]
