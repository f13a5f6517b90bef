"""Plain-data libraries: strategy, construction with gdspy, expectations."""
import datetime
import io
import math

import numpy
from hypothesis import strategies as st

import gdspy
import gen
from build import set_props

UNITS = [
    (1e-6, 1e-9),
    (1e-6, 1e-9),
    (1e-6, 1e-10),
    (1e-6, 5e-9),
    (1e-6, 2.5e-10),
    (1e-3, 1e-6),
    (1, 1e-3),
    (1e-6, 1e-6),
    (2.54e-5, 1e-9),
    (1e-9, 1e-12),
    (2.54e-5 / 3, 2.54e-5 / 3000),
    (1.23456789012345e-6, 1.1e-9 / 7),
]

stamp = st.tuples(
    st.integers(1, 9999), st.integers(1, 12), st.integers(1, 28),
    st.integers(0, 23), st.integers(0, 59), st.integers(0, 59),
)

coord = st.one_of(
    st.integers(-30, 30),
    gen.grid(-30000, 30000),
    st.integers(-10 ** 9, 10 ** 9).map(lambda k: k / 1e6),
    gen.grid(-200000000, 200000000, 1000),
)
pt = st.tuples(coord, coord)


def distinct_polyline(c, nmin=2, nmax=5):
    """Consecutive points at least one unit apart, so that no grid used here
    makes them coincide."""

    def fix(pts):
        out = [pts[0]]
        for p in pts[1:]:
            if max(abs(p[0] - out[-1][0]), abs(p[1] - out[-1][1])) >= 1:
                out.append(p)
        while len(out) < nmin:
            out.append((out[-1][0] + 2, out[-1][1] + 1))
        return out

    return st.lists(c, min_size=nmin, max_size=nmax).map(fix)


verts = st.lists(pt, min_size=3, max_size=8)

poly = st.tuples(
    st.just("poly"), st.lists(verts, min_size=1, max_size=1), gen.layer_any, gen.layer_any, gen.props
)
pset = st.tuples(
    st.just("pset"), st.lists(verts, min_size=1, max_size=3), gen.layer_any, gen.layer_any, gen.props
)
width = st.one_of(st.integers(1, 5), gen.grid(2, 5000), st.just(0))
ends = st.one_of(
    st.sampled_from(["flush", "extended", "round"]),
    st.tuples(gen.grid(-3000, 5000), gen.grid(-3000, 5000)),
)
fpath = st.tuples(
    st.just("fpath"), distinct_polyline(pt), width, ends, gen.layer_any, gen.layer_any,
    st.booleans(), gen.props,
)
rpath = st.tuples(
    st.just("rpath"), distinct_polyline(pt, 2, 4), width.filter(lambda w: w > 0),
    st.sampled_from(["flush", "extended", "round", (0.5, 0.25), (0, 1)]),
    gen.layer_any, gen.layer_any, st.booleans(), gen.props,
)
label = st.tuples(
    gen.ascii_text, pt, gen.anchors, gen.angle_opt, gen.mag_opt, st.booleans(),
    gen.layer_any, gen.layer_any, gen.props,
)
target = st.one_of(st.integers(0, 5), st.integers(0, 5), st.sampled_from(["MISSING", "other", "zz9"]))
ref = st.tuples(
    st.just("ref"), target, pt, gen.angle_opt, gen.mag_opt, st.booleans(), gen.props
)
count = st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(1, 6), st.sampled_from([1, 7, 255, 256, 1000, 32767]))
arr = st.tuples(
    st.just("arr"), target, count, count,
    st.tuples(st.one_of(st.integers(-9, 9), gen.grid(-9000, 9000)), st.one_of(st.integers(-9, 9), gen.grid(-9000, 9000))),
    pt, gen.angle_opt, gen.mag_opt, st.booleans(), gen.props,
)


def few(s, n):
    return st.lists(s, max_size=n)


cell = st.tuples(
    few(st.one_of(poly, pset), 3),
    few(st.one_of(fpath, fpath, rpath), 2),
    few(label, 2),
    few(st.one_of(ref, arr), 3),
)

lib = st.fixed_dictionaries(
    {
        "name": gen.cell_name,
        "units": st.sampled_from(UNITS),
        "stamp": stamp,
        "names": st.lists(gen.cell_name, min_size=4, max_size=4, unique=True),
        "cells": st.lists(cell, min_size=1, max_size=4),
    }
)


def fits(spec):
    """Whether every coordinate fits the 4-byte integers of the format."""
    u, p = spec["units"]
    far = 20
    for polys, paths, labels, refs in spec["cells"]:
        pts = [q for s in polys for c in s[1] for q in c] + [q for s in paths for q in s[1]] + [s[1] for s in labels]
        for s in refs:
            if s[0] == "ref":
                pts.append(s[2])
            else:
                _, _, cols, rows, (dx, dy), at = s[:6]
                far = max(far, math.hypot(cols * dx, rows * dy) + max(map(abs, at)))
        far = max([far] + [abs(v) for q in pts for v in q])
    return 1.01 * (far + 20) * u / p < 2 ** 31


def target_name(spec, i, t):
    """Name a reference of cell number i points to (acyclic)."""
    if isinstance(t, str):
        return t
    if i == 0:
        return "NOWHERE"
    return spec["names"][t % i]


def make(spec, exclude=True):
    u, p = spec["units"]
    lib = gdspy.GdsLibrary(spec["name"], unit=u, precision=p)
    cells = []
    for i, (polys, paths, labels, refs) in enumerate(spec["cells"]):
        c = gdspy.Cell(spec["names"][i])
        for kind, pts, ly, dt, pr in polys:
            if kind == "poly":
                c.add(set_props(gdspy.Polygon(pts[0], ly, dt), pr))
            else:
                c.add(set_props(gdspy.PolygonSet(pts, ly, dt), pr))
        for s in paths:
            c.add(make_path(s))
        for text, pos, an, ro, mg, xr, ly, tt, pr in labels:
            c.add(set_props(gdspy.Label(text, pos, an, ro, mg, xr, ly, tt), pr))
        for s in refs:
            t = target_name(spec, i, s[1])
            byname = {x.name: x for x in cells}
            tgt = byname.get(t, t)
            if s[0] == "ref":
                _, _, org, ro, mg, xr, pr = s
                r = gdspy.CellReference(tgt, org, ro, mg, xr, ignore_missing=True)
            else:
                _, _, nc, nr, sp, org, ro, mg, xr, pr = s
                r = gdspy.CellArray(tgt, nc, nr, sp, org, ro, mg, xr, ignore_missing=True)
            c.add(set_props(r, pr))
        cells.append(c)
        lib.add(c, include_dependencies=False)
    return lib


def make_path(s):
    if s[0] == "fpath":
        _, pts, w, en, ly, dt, wt, pr = s
        return set_props(
            gdspy.FlexPath(pts, w, ends=en, layer=ly, datatype=dt, gdsii_path=True, width_transform=wt), pr
        )
    _, pts, w, en, ly, dt, wt, pr = s
    p = gdspy.RobustPath(pts[0], w, ends=en, layer=ly, datatype=dt, gdsii_path=True, width_transform=wt)
    for q in pts[1:]:
        p.segment(q)
    return set_props(p, pr)


def when(spec):
    return datetime.datetime(*spec["stamp"])


def write(lib, ts, **kw):
    f = io.BytesIO()
    lib.write_gds(f, timestamp=ts, **kw)
    return f.getvalue()


def norm_props(pr):
    """Attribute -> value, as written."""
    return dict(pr) if pr else {}
