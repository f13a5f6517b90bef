"""Layout hash and timestamps of files."""
import datetime
import hashlib
import os
import pathlib

import gdspy
import gds
import libspec as L
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Random libraries are written to files; the hash is compared between files that differ in time stamps, cell "
    "order, library name, padding or one byte or element of a cell, and set_gdsii_timestamp is compared with a "
    "byte-level model. Non-trivial: the library has an element."
)
ASSUMPTIONS = ["no two different cells contents collide in the hash"]


def norm(spec):
    return spec if L.fits(spec) else dict(spec, units=(1e-6, 1e-9))


def save(data, kind="path", name="h.gds"):
    p = os.path.join(os.environ["PBT_SCRATCH"], name)
    with open(p, "wb") as f:
        f.write(data)
    return p if kind == "path" else pathlib.Path(p)


def positions(data):
    """[(position, size, record type)]"""
    pos = 0
    out = []
    while pos < len(data):
        n = int.from_bytes(data[pos : pos + 2], "big")
        if n < 4:
            break
        out.append((pos, n, data[pos + 2]))
        pos += n
    return out


def elements(spec):
    return sum(len(g) for c in spec["cells"] for g in c)


class Engine:
    """Counts calls of an engine given by the caller."""

    def __init__(self, name):
        self.h = hashlib.new(name)
        self.used = 0

    def update(self, b):
        self.used += 1
        self.h.update(b)

    def hexdigest(self):
        return self.h.hexdigest()


def check_hash(case, ctx):
    spec, ts2, name2, perm, kind, pad, where, flip = case
    spec = norm(spec)
    lib = L.make(spec)
    ts = L.when(spec)
    data = L.write(lib, ts)
    h = gdspy.gdsii_hash(save(data, kind))
    ensure(isinstance(h, str) and len(h) == 40 and int(h, 16) >= 0, "hash", h)
    ensure(open(save(data), "rb").read() == data, "hashing changed the file")
    # the caller's engine
    for e in ("sha256", "md5"):
        a = gdspy.gdsii_hash(save(data, kind), Engine(e))
        b = gdspy.gdsii_hash(save(data, kind), hashlib.new(e))
        ensure(a == b and len(a) == hashlib.new(e).digest_size * 2, "engine", a, b)
    # stamps, library name, order of the cells and padding do not matter
    other = gdspy.GdsLibrary(name2, unit=lib.unit, precision=lib.precision)
    cells = list(lib.cells.values())
    order = [cells[k] for k in perm if k < len(cells)]
    for c in order:
        other.add(c, include_dependencies=False)
    data2 = L.write(other, datetime.datetime(*ts2)) + b"\0" * pad
    ensure(gdspy.gdsii_hash(save(data2, kind)) == h, "the hash depends on the time stamp, library name, cell order or padding")
    # any byte of a cell other than its stamp matters
    rs = positions(data)
    spans = []
    inside = False
    for pos, n, t in rs:
        if t == gds.BGNSTR:
            inside = True
        elif t == gds.ENDSTR:
            inside = False
        elif inside and n > 4:
            spans.append((pos + 4, n - 4))
    total = sum(n for _, n in spans)
    k = where % total
    for pos, n in spans:
        if k < n:
            break
        k -= n
    mod = bytearray(data)
    mod[pos + k] ^= flip
    # keep the record structure readable: payload bytes only
    ensure(gdspy.gdsii_hash(save(bytes(mod), kind)) != h, "the hash ignores byte", pos + k, "of", len(data))
    # an element more, or a cell more
    e = gdspy.Rectangle((0, 0), (1, 1), 11)
    cells[0].add(e)
    ensure(gdspy.gdsii_hash(save(L.write(lib, ts), kind)) != h, "the hash ignores a new element")
    cells[0].polygons.remove(e)
    ensure(gdspy.gdsii_hash(save(L.write(lib, ts), kind)) == h, "the hash is not repeatable")
    lib.add(gdspy.Cell("extra-cell"))
    ensure(gdspy.gdsii_hash(save(L.write(lib, ts), kind)) != h, "the hash ignores a new cell")
    ctx.nt(elements(spec) > 0)


def check_stamp(case, ctx):
    spec, ts2, kind, pad = case
    spec = norm(spec)
    data = L.write(L.make(spec), L.when(spec)) + b"\0" * pad
    path = save(data, kind)
    h = gdspy.gdsii_hash(path)
    gdspy.set_gdsii_timestamp(path, datetime.datetime(*ts2))
    got = open(path, "rb").read()
    exp = bytearray(data)
    count = 0
    for pos, n, t in positions(data):
        if t in (gds.BGNLIB, gds.BGNSTR):
            count += 1
            exp[pos + 4 : pos + 28] = b"".join(v.to_bytes(2, "big") for v in ts2) * 2
    ensure(len(got) == len(exp), "file size", len(got), len(exp))
    for i in range(len(exp)):
        if got[i] != exp[i]:
            raise AssertionError("byte %d is %d instead of %d" % (i, got[i], exp[i]))
    ensure(gdspy.gdsii_hash(path) == h, "stamping changes the hash")
    # the same as writing with that time stamp
    ensure(got[: len(data) - pad] == L.write(L.make(spec), datetime.datetime(*ts2)), "stamped file differs from written file")
    ctx.nt(elements(spec) > 0)
    ctx.label("%d cells" % (count - 1))


kind = st.sampled_from(["path", "Path"])
SUBS = [
    Sub(
        "hash",
        st.tuples(L.lib, L.stamp, L.gen.cell_name, st.permutations([0, 1, 2, 3]), kind, st.sampled_from([0, 0, 4, 100, 2048]), st.integers(0, 10 ** 6), st.integers(1, 255)),
        check_hash, 2500,
    ),
    Sub("stamp", st.tuples(L.lib, L.stamp, kind, st.sampled_from([0, 0, 4, 100, 2048])), check_stamp, 2500),
]
