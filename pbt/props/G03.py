"""8-byte reals, through files."""
import datetime
import io
import math
from fractions import Fraction

import gdspy
import gds
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Doubles of every magnitude of the format (random mantissas, powers of 16 and 2 and their neighbours, short "
    "decimals) are written as units, magnification and rotation and the record bytes compared with exact rational "
    "arithmetic; random 8-byte patterns, also not normalized, are read from generated files. Non-trivial: the value "
    "is not an integer below 1000, or the pattern is not zero."
)
ASSUMPTIONS = ["magnitudes from 16^-64 to 16^62, the range of the format"]


@st.composite
def double(draw):
    k = draw(st.integers(0, 5))
    if k == 0:
        return draw(st.integers(-720, 720)) / draw(st.sampled_from([1, 2, 4, 7, 10, 1000]))
    if k == 1:  # around powers of 2 and 16
        v = 2.0 ** draw(st.one_of(st.integers(-8, 8), st.integers(-63, 61).map(lambda i: 4 * i), st.integers(-250, 245)))
        for _ in range(draw(st.integers(0, 3))):
            v = math.nextafter(v, 0 if draw(st.booleans()) else math.inf)
    elif k == 2:  # decimal units
        v = draw(st.integers(1, 9999)) * 10.0 ** draw(st.integers(-20, 12))
    else:
        m = draw(st.integers(1 << 52, (1 << 53) - 1))
        e = draw(st.one_of(st.integers(-60, -40), st.integers(-300, 190)))
        v = math.ldexp(m, e)
    return -v if draw(st.booleans()) else v


def interesting(v):
    return v != int(v) or abs(v) >= 1000 if math.isfinite(v) else True


def raw_records(data, rt):
    return [pl for t, _, pl in gds.records(data)[0] if t == rt]


def exact(b, v, what):
    ensure(len(b) == 8, what, b)
    if v == 0:
        ensure(b == b"\0" * 8, what, "zero is", b.hex())
        return
    f = gds.real8_exact(b)
    ensure(f != 0 and (f > 0) == (v > 0), what, "sign of", v, "is", b.hex())
    ensure(f == Fraction(v), what, "encoded", b.hex(), float(f), "from", repr(v))
    ensure(b[1] & 0xF0, what, "is not normalized:", b.hex(), v)


def check_encode(case, ctx):
    values, which = case
    lib = gdspy.GdsLibrary("L")
    c = lib.new_cell("A")
    for m, r in values:
        if which == "label":
            c.add(gdspy.Label("x", (0, 0), rotation=r, magnification=m))
        elif which == "ref":
            c.add(gdspy.CellReference("B", (0, 0), rotation=r, magnification=m, ignore_missing=True))
        else:
            c.add(gdspy.CellArray("B", 1, 1, (0, 0), (0, 0), rotation=r, magnification=m, ignore_missing=True))
    f = io.BytesIO()
    lib.write_gds(f, timestamp=datetime.datetime(2020, 1, 1))
    data = f.getvalue()
    mags, angs = raw_records(data, gds.MAG), raw_records(data, gds.ANGLE)
    ensure(len(mags) == len(values) and len(angs) == len(values), "records", len(mags), len(angs))
    for (m, r), bm, ba in zip(values, mags, angs):
        exact(bm, m, "magnification")
        exact(ba, r, "rotation")
    f.seek(0)
    new = gdspy.GdsLibrary(infile=f)
    for (m, r), e in zip(values, list(new.cells["A"].labels) + list(new.cells["A"].references)):
        ensure(float(e.magnification) == m and float(e.rotation) == r, "read", e.magnification, e.rotation, "wrote", m, r)
    ctx.nt(any(interesting(v) for p in values for v in p))
    ctx.label(which)


unitv = st.one_of(
    st.tuples(st.integers(1, 9999), st.integers(-13, 1)).map(lambda t: t[0] * 10.0 ** t[1]),
    st.tuples(st.integers(1 << 52, (1 << 53) - 1), st.integers(-90, -50)).map(lambda t: math.ldexp(*t)),
)


def check_units(case, ctx):
    unit, precision, writer = case
    f = io.BytesIO()
    if writer:
        gdspy.GdsWriter(f, "L", unit, precision).close()
    else:
        gdspy.GdsLibrary("L", unit=unit, precision=precision).write_gds(f)
    u = raw_records(f.getvalue(), gds.UNITS)
    ensure(len(u) == 1 and len(u[0]) == 16, "UNITS", u)
    exact(u[0][8:], precision, "precision")
    r = gds.real8_exact(u[0][:8])
    e = Fraction(precision) / Fraction(unit)
    ensure(abs(r - e) <= e / 2 ** 52 and u[0][0] < 0x80 and u[0][1] & 0xF0, "database unit", float(r), precision, unit)
    f.seek(0)
    a, b = gdspy.get_gds_units(f)
    ensure(abs(a - unit) <= 1e-15 * 3 * unit and b == precision, "units read", a, b, "wrote", unit, precision)
    ctx.nt()


pattern = st.one_of(
    st.binary(min_size=8, max_size=8),
    st.tuples(st.integers(0x30, 0x50), st.booleans(), st.integers(0, (1 << 56) - 1)).map(
        lambda t: bytes([t[0] | (0x80 if t[1] else 0)]) + t[2].to_bytes(7, "big")
    ),
    st.tuples(st.integers(0, 127), st.booleans(), st.integers(0, 13), st.integers(0, 255)).map(
        lambda t: bytes([t[0] | (0x80 if t[1] else 0)]) + (t[3] << (4 * t[2])).to_bytes(8, "big")[1:]
    ),
)


def nearest(b):
    f = gds.real8_exact(b)
    return f.numerator / f.denominator  # correctly rounded


def check_decode(case, ctx):
    els = []
    for m, r, k in case:
        e = {"kind": ("TEXT", "SREF", "AREF")[k], "strans": 0, "mag": m, "angle": r}
        if k == 0:
            e.update(layer=1, type=2, xy=[0, 0], string="x")
        elif k == 1:
            e.update(sname="B", xy=[0, 0])
        else:
            e.update(sname="B", colrow=(1, 1), xy=[0, 0, 0, 0, 0, 0])
        els.append(e)
    data = gds.stream({"name": "L", "units": (1e-3, 1e-9), "cells": [{"name": "A", "elements": els}]})
    new = gdspy.GdsLibrary()
    new.read_gds(io.BytesIO(data))
    c = new.cells["A"]
    its = [iter(c.labels), iter([x for x in c.references if type(x) is gdspy.CellReference]), iter([x for x in c.references if type(x) is gdspy.CellArray])]
    for m, r, k in case:
        e = next(its[k])
        for v, b in ((e.magnification, m), (e.rotation, r)):
            n = nearest(b)
            ensure(v is not None and abs(float(v) - n) <= 2 ** -53 * abs(n), "decoded", b.hex(), "as", repr(v), "not", repr(n))
    ctx.nt(any(b != b"\0" * 8 for p in case for b in p[:2]))


SUBS = [
    Sub("encode", st.tuples(st.lists(st.tuples(double(), double()), min_size=1, max_size=8), st.sampled_from(["label", "ref", "array"])), check_encode, 6000),
    Sub("units", st.tuples(unitv, unitv, st.booleans()), check_units, 3000),
    Sub("decode", st.lists(st.tuples(pattern, pattern, st.integers(0, 2)), min_size=1, max_size=8), check_decode, 6000),
]
