"""Import options: renaming and layer maps."""
import io

import numpy

import gdspy
import foreign as F
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "The same generated stream is imported plainly and with random partial maps of cell names (including exchanges of "
    "names), layers, datatypes and texttypes and a name template; the second library must be the first one after the "
    "listed changes. Non-trivial: at least one map entry applies to the stream."
)
ASSUMPTIONS = ["renamed cells keep distinct names"]

lmap = st.dictionaries(st.integers(0, 9), st.integers(0, 300), max_size=6).map(lambda d: sorted(d.items()))
renames = st.one_of(
    st.just([]),
    st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)), max_size=4, unique_by=(lambda t: t[0], lambda t: t[1])),
    st.permutations([0, 1, 2, 3]).map(lambda p: list(enumerate(p))),
)


def same(a, b):
    return numpy.array_equal(numpy.asarray(a, dtype=object), numpy.asarray(b, dtype=object))


def check(case, ctx):
    spec, ren, fresh, missing, template, lm, dm, tm, mode, (reuse) = case
    data = F.encode(spec)
    names = spec["names"]
    # values are fresh names or names of other renamed cells (exchanges)
    perm = sorted(a for a, _ in ren) == sorted(b for _, b in ren) and not fresh and template == "{name}"
    rename = {names[a]: (names[b] if perm else "R-%d" % b) for a, b in ren}
    if missing:
        rename["MISSING"] = "FOUND-"
    lm, dm, tm = dict(lm), dict(dm), dict(tm)
    a = gdspy.GdsLibrary(unit=1e-3, precision=1e-6)
    a.read_gds(io.BytesIO(data), units=mode)
    b = gdspy.GdsLibrary(unit=1e-3, precision=1e-6)
    kw = dict(units=mode, rename=rename, rename_template=template, layers=lm, datatypes=dm, texttypes=tm)
    if reuse:
        # default arguments must not remember anything of earlier imports
        gdspy.GdsLibrary().read_gds(io.BytesIO(data), **{k: v for k, v in kw.items() if k != "units"})
        kw = dict(units=mode)
        rename, template, lm, dm, tm = {}, "{name}", {}, {}, {}
    frozen = {k: dict(v) for k, v in kw.items() if isinstance(v, dict)}
    b.read_gds(io.BytesIO(data), **kw)
    for k, v in frozen.items():
        ensure(kw[k] == v, "the map was changed", k)

    def newname(n):
        return rename[n] if n in rename else template.format(name=n)

    hit = False
    ensure(a.unit == b.unit and a.precision == b.precision and a.name == b.name, "library")
    ensure(list(b.cells) == [newname(n) for n in a.cells], "cell names", list(b.cells), list(a.cells), rename, template)
    for n in a.cells:
        x, y = a.cells[n], b.cells[newname(n)]
        hit |= newname(n) != n
        ensure(y.name == newname(n), "cell name", y.name)
        for k in ("polygons", "paths", "labels", "references"):
            ensure(len(getattr(x, k)) == len(getattr(y, k)), "number of", k)
        for p, q in list(zip(x.polygons, y.polygons)) + list(zip(x.paths, y.paths)):
            ensure(list(q.layers) == [lm.get(v, v) for v in p.layers], "layers", p.layers, q.layers, lm)
            ensure(list(q.datatypes) == [dm.get(v, v) for v in p.datatypes], "datatypes", p.datatypes, q.datatypes, dm)
            hit |= list(q.layers) != list(p.layers) or list(q.datatypes) != list(p.datatypes)
            for k in ("points", "widths", "offsets", "ends", "width_transform", "properties"):
                if hasattr(p, k):
                    ensure(same(getattr(p, k), getattr(q, k)) or getattr(p, k) == getattr(q, k), k, getattr(p, k), getattr(q, k))
            if hasattr(p, "polygons"):
                ensure(numpy.array_equal(p.polygons[0], q.polygons[0]), "polygon")
        for p, q in zip(x.labels, y.labels):
            ensure(q.layer == lm.get(p.layer, p.layer), "label layer", p.layer, q.layer, lm)
            ensure(q.texttype == tm.get(p.texttype, p.texttype), "label texttype", p.texttype, q.texttype, tm)
            hit |= q.layer != p.layer or q.texttype != p.texttype
            for k in ("text", "anchor", "rotation", "magnification", "x_reflection", "properties"):
                ensure(getattr(p, k) == getattr(q, k), "label", k)
            ensure(numpy.array_equal(p.position, q.position), "label position")
        for p, q in zip(x.references, y.references):
            ensure(type(p) is type(q), "reference kind")
            t = p.ref_cell.name if isinstance(p.ref_cell, gdspy.Cell) else p.ref_cell
            nn = newname(t)
            hit |= nn != t
            if nn in b.cells:
                ensure(q.ref_cell is b.cells[nn], "target", q.ref_cell, nn)
            else:
                ensure(q.ref_cell == nn, "target", q.ref_cell, nn)
            for k in ("rotation", "magnification", "x_reflection", "properties", "columns", "rows"):
                if hasattr(p, k):
                    ensure(getattr(p, k) == getattr(q, k), "reference", k)
            ensure(numpy.array_equal(p.origin, q.origin), "reference origin")
            if hasattr(p, "spacing"):
                ensure(numpy.array_equal(p.spacing, q.spacing), "array spacing")
    if perm and ren:
        ctx.label("exchange of names")
    if reuse:
        ctx.label("second import with defaults")
    ctx.nt(hit or reuse)


SUBS = [
    Sub(
        "maps",
        st.tuples(
            F.stream, renames, st.booleans(), st.booleans(),
            st.sampled_from(["{name}", "{name}", "p-{name}", "{name}-s", "a.{name}.b"]),
            lmap, lmap, lmap, st.sampled_from(["skip", "import", "convert"]), st.sampled_from([False, False, False, True]),
        ),
        check, 6000,
    ),
]
