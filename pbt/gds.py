"""An independent GDSII stream codec (records, 8-byte reals, grammar).

Written from the GDSII stream format description; shares no code with gdspy.
"""
import struct
from fractions import Fraction

HEADER, BGNLIB, LIBNAME, UNITS, ENDLIB = 0x00, 0x01, 0x02, 0x03, 0x04
BGNSTR, STRNAME, ENDSTR = 0x05, 0x06, 0x07
BOUNDARY, PATH, SREF, AREF, TEXT = 0x08, 0x09, 0x0A, 0x0B, 0x0C
LAYER, DATATYPE, WIDTH, XY, ENDEL = 0x0D, 0x0E, 0x0F, 0x10, 0x11
SNAME, COLROW, NODE, TEXTTYPE, PRESENTATION = 0x12, 0x13, 0x15, 0x16, 0x17
STRING, STRANS, MAG, ANGLE = 0x19, 0x1A, 0x1B, 0x1C
PATHTYPE, ELFLAGS, NODETYPE, PROPATTR, PROPVALUE = 0x21, 0x26, 0x2A, 0x2B, 0x2C
BOX, BOXTYPE, PLEX, BGNEXTN, ENDEXTN = 0x2D, 0x2E, 0x2F, 0x30, 0x31

NAMES = {v: k for k, v in list(globals().items()) if k.isupper() and isinstance(v, int)}

NODATA, BITS, INT2, INT4, REAL4, REAL8, ASCII = 0, 1, 2, 3, 4, 5, 6

TYPES = {
    HEADER: INT2, BGNLIB: INT2, LIBNAME: ASCII, UNITS: REAL8, ENDLIB: NODATA,
    BGNSTR: INT2, STRNAME: ASCII, ENDSTR: NODATA, BOUNDARY: NODATA, PATH: NODATA,
    SREF: NODATA, AREF: NODATA, TEXT: NODATA, LAYER: INT2, DATATYPE: INT2,
    WIDTH: INT4, XY: INT4, ENDEL: NODATA, SNAME: ASCII, COLROW: INT2, NODE: NODATA,
    TEXTTYPE: INT2, PRESENTATION: BITS, STRING: ASCII, STRANS: BITS, MAG: REAL8,
    ANGLE: REAL8, PATHTYPE: INT2, ELFLAGS: BITS, NODETYPE: INT2, PROPATTR: INT2,
    PROPVALUE: ASCII, BOX: NODATA, BOXTYPE: INT2, PLEX: INT4, BGNEXTN: INT4,
    ENDEXTN: INT4,
}


class Malformed(AssertionError):
    pass


def need(c, *msg):
    if not c:
        raise Malformed("malformed GDSII: " + " ".join(str(m) for m in msg))


def real8_exact(b):
    """Exact value of an excess-64 base-16 8-byte real."""
    v = int.from_bytes(b, "big")
    s = v >> 63
    e = (v >> 56) & 0x7F
    m = v & ((1 << 56) - 1)
    f = Fraction(m) * Fraction(16) ** (e - 64) / (1 << 56)
    return -f if s else f


def real8_encode(x):
    """Nearest normalized 8-byte real of a Fraction/float (exact for floats in range)."""
    f = Fraction(x)
    if f == 0:
        return b"\0" * 8
    s = 0x80 if f < 0 else 0
    f = abs(f)
    e = 64
    while f >= 1:
        f /= 16
        e += 1
    while f < Fraction(1, 16):
        f *= 16
        e -= 1
    m = round(f * (1 << 56))
    if m == 1 << 56:
        m >>= 4
        e += 1
    assert 0 <= e < 128
    return bytes([s | e]) + m.to_bytes(7, "big")


def records(data):
    """[(type, datatype, payload bytes)] of a whole stream up to ENDLIB."""
    pos = 0
    out = []
    n = len(data)
    while pos < n:
        need(n - pos >= 4, "truncated header at", pos)
        size, rt, dt = struct.unpack(">HBB", data[pos : pos + 4])
        need(size >= 4, "record of size", size, "at", pos)
        need(size % 2 == 0, "odd record size", size, "at", pos)
        need(pos + size <= n, "record past the end at", pos)
        out.append((rt, dt, data[pos + 4 : pos + size]))
        pos += size
        if rt == ENDLIB:
            break
    return out, data[pos:]


def decode(rt, dt, payload):
    need(rt in TYPES, "unknown record type", hex(rt))
    need(TYPES[rt] == dt, NAMES[rt], "has data type", dt)
    if dt == NODATA:
        need(payload == b"", NAMES[rt], "carries data")
        return None
    if dt == ASCII:
        if payload.endswith(b"\0"):
            payload = payload[:-1]
        need(b"\0" not in payload, NAMES[rt], "has embedded zeros", payload)
        return payload.decode("ascii")
    if dt == BITS:
        need(len(payload) == 2, NAMES[rt], "length", len(payload))
        return struct.unpack(">H", payload)[0]
    if dt == INT2:
        need(len(payload) % 2 == 0)
        return list(struct.unpack(">%dh" % (len(payload) // 2), payload))
    if dt == INT4:
        need(len(payload) % 4 == 0)
        return list(struct.unpack(">%di" % (len(payload) // 4), payload))
    if dt == REAL8:
        need(len(payload) % 8 == 0)
        return [real8_exact(payload[i : i + 8]) for i in range(0, len(payload), 8)]
    raise Malformed("data type %d" % dt)


def parse(data):
    """Parse a whole stream by the GDSII grammar into plain data.

    {"name","units":(Fraction,Fraction),"stamp":[12 ints],"version",
     "cells":[{"name","stamp","elements":[...]}]}
    Elements keep file order; each is a dict with "kind" and its records.
    """
    recs, tail = records(data)
    need(set(tail) <= {0}, "data after ENDLIB", tail[:20])
    toks = [(rt, decode(rt, dt, pl)) for rt, dt, pl in recs]
    pos = 0

    def peek():
        need(pos < len(toks), "stream ends early")
        return toks[pos][0]

    def take(rt):
        nonlocal pos
        need(peek() == rt, "expected", NAMES[rt], "found", NAMES.get(peek(), peek()), "at record", pos)
        v = toks[pos][1]
        pos += 1
        return v

    def opt(rt, default=None):
        return take(rt) if peek() == rt else default

    def one(v):
        need(len(v) == 1, "single value expected", v)
        return v[0]

    lib = {"version": one(take(HEADER))}
    lib["stamp"] = take(BGNLIB)
    need(len(lib["stamp"]) == 12, "BGNLIB")
    lib["name"] = take(LIBNAME)
    u = take(UNITS)
    need(len(u) == 2, "UNITS")
    lib["units"] = tuple(u)
    lib["cells"] = []
    while peek() != ENDLIB:
        cell = {"stamp": take(BGNSTR)}
        need(len(cell["stamp"]) == 12, "BGNSTR")
        cell["name"] = take(STRNAME)
        cell["elements"] = []
        while peek() != ENDSTR:
            kind = peek()
            need(kind in (BOUNDARY, PATH, SREF, AREF, TEXT, NODE, BOX), "not an element:", NAMES.get(kind, kind))
            take(kind)
            el = {"kind": NAMES[kind]}
            opt(ELFLAGS)
            opt(PLEX)
            if kind in (BOUNDARY, PATH):
                el["layer"] = one(take(LAYER))
                el["type"] = one(take(DATATYPE))
                if kind == PATH:
                    el["pathtype"] = one(opt(PATHTYPE, [0]))
                    el["width"] = one(opt(WIDTH, [0]))
                    # gdspy writes the extensions after WIDTH
                    el["bgnextn"] = one(opt(BGNEXTN, [0]))
                    el["endextn"] = one(opt(ENDEXTN, [0]))
                xy = list(take(XY))
                el["xy_records"] = 1
                while peek() == XY:
                    xy += take(XY)
                    el["xy_records"] += 1
                el["xy"] = xy
                need(len(xy) % 2 == 0, "odd number of coordinates")
                if kind == BOUNDARY:
                    need(len(xy) >= 8, "boundary with", len(xy) // 2, "points")
                    need(xy[:2] == xy[-2:], "boundary is not closed")
                else:
                    need(len(xy) >= 4, "path with", len(xy) // 2, "points")
            elif kind in (SREF, AREF):
                el["sname"] = take(SNAME)
                el["strans"] = opt(STRANS)
                if el["strans"] is not None:
                    m = opt(MAG)
                    a = opt(ANGLE)
                    el["mag"] = None if m is None else one(m)
                    el["angle"] = None if a is None else one(a)
                else:
                    el["mag"] = el["angle"] = None
                if kind == AREF:
                    cr = take(COLROW)
                    need(len(cr) == 2, "COLROW")
                    need(cr[0] > 0 and cr[1] > 0, "COLROW", cr)
                    el["colrow"] = tuple(cr)
                el["xy"] = take(XY)
                need(len(el["xy"]) == (2 if kind == SREF else 6), NAMES[kind], "XY", el["xy"])
            elif kind == TEXT:
                el["layer"] = one(take(LAYER))
                el["type"] = one(take(TEXTTYPE))
                el["presentation"] = opt(PRESENTATION, 0)
                el["pathtype"] = one(opt(PATHTYPE, [0]))
                el["width"] = one(opt(WIDTH, [0]))
                el["strans"] = opt(STRANS)
                el["mag"] = el["angle"] = None
                if el["strans"] is not None:
                    m = opt(MAG)
                    a = opt(ANGLE)
                    el["mag"] = None if m is None else one(m)
                    el["angle"] = None if a is None else one(a)
                el["xy"] = take(XY)
                need(len(el["xy"]) == 2, "TEXT XY")
                el["string"] = take(STRING)
            elif kind in (NODE, BOX):
                el["layer"] = one(take(LAYER))
                el["type"] = one(take(NODETYPE if kind == NODE else BOXTYPE))
                el["xy"] = take(XY)
            el["props"] = []
            while peek() == PROPATTR:
                a = one(take(PROPATTR))
                el["props"].append((a, take(PROPVALUE)))
            take(ENDEL)
            cell["elements"].append(el)
        take(ENDSTR)
        lib["cells"].append(cell)
    take(ENDLIB)
    need(pos == len(toks), "records after ENDLIB")
    return lib


# -- writing ---------------------------------------------------------------


def rec(rt, payload=b""):
    need(len(payload) % 2 == 0 and len(payload) <= 65530, "record too long")
    return struct.pack(">HBB", len(payload) + 4, rt, TYPES[rt]) + payload


def rec_i2(rt, *v):
    return rec(rt, struct.pack(">%dh" % len(v), *v))


def rec_u2(rt, *v):
    return rec(rt, struct.pack(">%dH" % len(v), *v))


def rec_i4(rt, *v):
    return rec(rt, struct.pack(">%di" % len(v), *v))


def rec_r8(rt, *v):
    return rec(rt, b"".join(real8_encode(x) for x in v))


def rec_s(rt, s):
    b = s.encode("ascii")
    return rec(rt, b + b"\0" * (len(b) % 2))


def stream(lib):
    """Encode {"name","units":(8-byte,8-byte or numbers),"cells":[{"name","elements"}]}.

    Elements: {"kind","layer","type","xy", optional records by presence}.
    """
    st = lib.get("stamp", [2001, 2, 3, 4, 5, 6, 2007, 8, 9, 10, 11, 12])
    out = [rec_i2(HEADER, lib.get("version", 600)), rec_i2(BGNLIB, *st), lib.get("head", b"")]
    out.append(rec_s(LIBNAME, lib["name"]))
    out.append(lib.get("head2", b""))
    out.append(rec(UNITS, b"".join(x if isinstance(x, bytes) else real8_encode(x) for x in lib["units"])))
    for c in lib["cells"]:
        out.append(rec_i2(BGNSTR, *c.get("stamp", st)))
        out.append(rec_s(STRNAME, c["name"]))
        for el in c["elements"]:
            out.append(element(el))
        out.append(rec(ENDSTR))
    out.append(rec(ENDLIB))
    out.append(b"\0" * lib.get("pad", 0))
    return b"".join(out)


def element(el):
    kind = globals()[el["kind"]]
    o = [rec(kind)]
    if el.get("elflags") is not None:
        o.append(rec_u2(ELFLAGS, el["elflags"]))
    if el.get("plex") is not None:
        o.append(rec_i4(PLEX, el["plex"]))
    t = {BOUNDARY: DATATYPE, PATH: DATATYPE, TEXT: TEXTTYPE, NODE: NODETYPE, BOX: BOXTYPE}
    if kind in t:
        o.append(rec_i2(LAYER, el["layer"]))
        o.append(rec_i2(t[kind], el["type"]))
    else:
        o.append(rec_s(SNAME, el["sname"]))
    if kind == TEXT and el.get("presentation") is not None:
        o.append(rec_u2(PRESENTATION, el["presentation"]))
    if kind in (PATH, TEXT):
        if el.get("pathtype") is not None:
            o.append(rec_i2(PATHTYPE, el["pathtype"]))
        if el.get("width") is not None:
            o.append(rec_i4(WIDTH, el["width"]))
    if kind == PATH:
        if el.get("bgnextn") is not None:
            o.append(rec_i4(BGNEXTN, el["bgnextn"]))
        if el.get("endextn") is not None:
            o.append(rec_i4(ENDEXTN, el["endextn"]))
    if kind in (SREF, AREF, TEXT) and el.get("strans") is not None:
        o.append(rec_u2(STRANS, el["strans"]))
        for k, r in (("mag", MAG), ("angle", ANGLE)):
            v = el.get(k)
            if v is not None:
                o.append(rec(r, v if isinstance(v, bytes) else real8_encode(v)))
    if kind == AREF:
        o.append(rec_i2(COLROW, *el["colrow"]))
    xy = list(el["xy"])
    chunk = 2 * el.get("chunk", 8191)
    for i in range(0, len(xy), chunk):
        o.append(rec_i4(XY, *xy[i : i + chunk]))
    if kind == TEXT:
        o.append(rec_s(STRING, el["string"]))
    for a, v in el.get("props", ()):
        o.append(rec_i2(PROPATTR, a))
        o.append(rec_s(PROPVALUE, v))
    o.append(rec(ENDEL))
    return b"".join(o)
