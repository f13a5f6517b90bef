"""SVG drawings."""
import io
import math
import os
import pathlib
import re
import tempfile
import xml.etree.ElementTree as ET

import hier as H
import numpy
import oracle
from core import Sub, ensure
from hypothesis import strategies as st
import gen

RULE = (
    "Random acyclic hierarchies (see H01) with polygon sets, paths, labels with any text, references and arrays, any cell names, scalings, printed "
    "digits, styles, backgrounds and paddings; the XML is interpreted by an independent program that expands uses and transformations. "
    "Non-trivial: something is drawn through a reference that transforms or repeats, or a label or style is compared."
)
ASSUMPTIONS = [
    "polygons of a path in its own cell are taken from the path (decided by P03 and P07)",
    "cells without geometry have no bounding box and nothing is written, as for empty cells",
    "the padding belongs to the background, as documented: without background the view box is the bounding box",
]
SVG = "{http://www.w3.org/2000/svg}"
LINK = "{http://www.w3.org/1999/xlink}href"
F = numpy.diag([1.0, -1.0])
NUMBER = re.compile(r"^-?[0-9]+(\.[0-9]+)?$")


def number(s, digits):
    ensure(NUMBER.match(s), "number", s)
    if digits is not None:
        ensure(len(s.partition(".")[2]) <= digits, "number", s, "with more than", digits, "digits")
    return float(s)


def transform(text, digits, q):
    """(matrix, vector, error bound) of a list of SVG transformations."""
    M, t, err = numpy.eye(2), numpy.zeros(2), 0.0
    pos = 0
    for m in re.finditer(r"\s*([a-z]+)\(([^()]*)\)", text):
        ensure(m.start() == pos, "transformation", text)
        pos = m.end()
        args = m[2].split()
        if m[1] == "translate":
            ensure(len(args) == 2, "transformation", text)
            t = t + M @ numpy.array([number(a, digits) for a in args])
            err += q * math.sqrt(2) * abs(numpy.linalg.det(M)) ** 0.5
        elif m[1] == "rotate":
            ensure(len(args) == 1, "transformation", text)
            a = math.radians(number(args[0], None))
            M = M @ numpy.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])
        elif m[1] == "scale":
            ensure(len(args) in (1, 2), "transformation", text)
            M = M @ numpy.diag([number(a, None) for a in (args * 2)[:2]])
        else:
            raise AssertionError("transformation " + text)
    ensure(not text[pos:].strip(), "transformation", text)
    return M, t, err


def draw(root, digits, q):
    """What the file draws: polygons (class, points, error), texts and rectangles."""
    ids = {}
    for e in root.iter():
        i = e.get("id")
        if i is not None:
            ensure(i not in ids, "two groups called", i)
            ids[i] = e
    polys, texts, rects = [], [], []

    def go(e, M, t, err):
        if e.tag == SVG + "defs":
            return
        if e.get("transform") is not None:
            a, b, c = transform(e.get("transform"), digits, q)
            t, err = M @ b + t, err + c * abs(numpy.linalg.det(M)) ** 0.5
            M = M @ a
        if e.tag in (SVG + "g", SVG + "svg"):
            for k in e:
                go(k, M, t, err)
        elif e.tag == SVG + "use":
            ref = e.get(LINK)
            ensure(ref is not None and ref[:1] == "#", "use of", ref)
            if ref[1:] in ids:
                go(ids[ref[1:]], M, t, err)
        elif e.tag == SVG + "polygon":
            pts = [[number(x, digits) for x in p.split(",")] for p in e.get("points").split()]
            p = numpy.array(pts, dtype=float).reshape(-1, 2)
            polys.append((e.get("class"), p @ M.T + t, err + q * math.sqrt(2) * abs(numpy.linalg.det(M)) ** 0.5))
        elif e.tag == SVG + "text":
            texts.append((e.get("class"), "".join(e.itertext()), e.get("text-anchor"), e.get("dominant-baseline"), M, t, err))
        elif e.tag == SVG + "rect":
            ensure(numpy.array_equal(M, numpy.eye(2)) and not t.any(), "transformed background")
            rects.append(e)
        else:
            raise AssertionError("element " + e.tag)

    go(root, numpy.eye(2), numpy.zeros(2), 0.0)
    return polys, texts, rects


def rules(text):
    """{selector: {property: value}} of the style sheet."""
    out = {}
    pos = 0
    for m in re.finditer(r"\s*\.(\w+)\s*\{([^{}]*)\}\s*", text):
        ensure(m.start() == pos, "style sheet", text)
        pos = m.end()
        ensure(m[1] not in out, "two styles for", m[1])
        out[m[1]] = dict((k.strip(), v.strip()) for k, v in (d.split(":", 1) for d in m[2].split(";") if d.strip()))
    ensure(not text[pos:].strip(), "style sheet", text)
    return out


def match(got, exp, same, what):
    ensure(len(got) == len(exp), what, "drawn", len(got), "expected", len(exp))
    rest = list(exp)
    for g in got:
        for j, e in enumerate(rest):
            if same(g, e):
                del rest[j]
                break
        else:
            raise AssertionError("%s: %s is none of %s" % (what, g, rest[:3]))


ANCHOR = {"w": "start", "e": "end"}
BASE = {"n": "text-before-edge", "s": "text-after-edge"}


def check(case, ctx):
    spec, texts, names, scaling, digits, style, fontstyle, background, pad, dest, which = case
    top = len(spec) - 1
    if H.size(spec, top) > 60:
        spec = spec[:2]
        top = len(spec) - 1
    count = iter(range(1000))
    spec = [(a, b, [(texts[next(count) % len(texts)],) + tuple(l[1:]) for l in c], d) for a, b, c, d in spec]
    objs = H.make(spec)
    used = []
    for i, o in enumerate(objs):
        n = names[i % len(names)]
        while n in used:
            n += "x"
        used.append(n)
        o.name = n
    cell = objs[top]
    placed, _ = H.placed_polygons(spec, top)
    inst = [(m, k) for kind, m, k in H.instances(spec, top) if kind == "cell"]
    labels = [(m, s) for m, k in inst for s in spec[k][2]]
    kw = {}
    if scaling != 10:
        kw["scaling"] = scaling
    if digits is not None:
        kw["precision"] = digits
    if style is not None:
        kw["style"] = {k: dict(v) for k, v in style}
    if fontstyle is not None:
        kw["fontstyle"] = {k: dict(v) for k, v in fontstyle}
    if background != "#222":
        kw["background"] = background
    if pad != "5%":
        kw["pad"] = pad
    bb = H.bbox(spec, top)
    out = []
    for _ in range(2):
        if dest == "buffer":
            f = io.StringIO()
            cell.write_svg(f, **kw)
            ensure(not f.closed, "the given file was closed")
            out.append(f.getvalue())
        else:
            with tempfile.TemporaryDirectory() as d:
                n = os.path.join(d, "a.svg")
                if dest == "file":
                    with open(n, "w", encoding="utf-8") as f:
                        cell.write_svg(f, **kw)
                else:
                    cell.write_svg(pathlib.Path(n) if dest == "path" else n, **kw)
                out.append(open(n, encoding="utf-8").read() if os.path.exists(n) else "")
    ensure(out[0] == out[1] or sorted(out[0].split("\n")) == sorted(out[1].split("\n")), "second drawing differs")
    text = out[0]
    if bb is None:
        ensure(text == "", "something was written for a cell without geometry")
        return
    try:
        root = ET.fromstring(text.encode("utf-8"))
    except ET.ParseError as e:
        raise AssertionError("not well-formed: %s" % e)
    ensure(root.tag == SVG + "svg", "root", root.tag)
    q = 0.0 if digits is None else 0.5000001 * 10.0 ** -digits
    big = 1e-9 * H.scale_of(spec) * scaling
    polys, marks, rects = draw(root, digits, q)
    # polygons
    exp = [("l%dd%d" % (a, b), scaling * p @ F) for p, a, b in placed]

    def same(g, e):
        return g[0] == e[0] and g[1].shape == e[1].shape and (e[1].size == 0 or float(numpy.abs(g[1] - e[1]).max()) <= g[2] + big)

    match(polys, exp, same, "polygons")
    # labels
    exp = []
    for m, (tx, pos, an, ro, mg, xr, ly, tt, pr) in labels:
        a = math.radians(ro or 0)
        R = numpy.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])
        X = numpy.diag([1.0, -1.0 if xr else 1.0]) * (1 if mg is None else mg)
        hor = [v for k, v in ANCHOR.items() if k in an] or ["middle"]
        ver = [v for k, v in BASE.items() if k in an] or ["central"]
        exp.append(("l%dt%d" % (ly, tt), tx, hor[0], ver[0], F @ m[0] @ R @ X @ F, scaling * H.apply(m, [pos])[0] @ F))

    def same_text(g, e):
        return g[:4] == e[:4] and numpy.abs(g[4] - e[4]).max() <= 1e-9 * (1 + numpy.abs(e[4]).max()) and numpy.abs(g[5] - e[5]).max() <= g[6] + big

    match(marks, exp, same_text, "labels")
    # view box and background
    x, y = scaling * bb[0, 0], -scaling * bb[1, 1]
    w, h = scaling * (bb[1] - bb[0])
    if background is not None:
        margin = pad
        if isinstance(pad, str):
            margin = max(w, h) * float(pad[:-1]) / 100 if pad.endswith("%") else float(pad)
        x, y, w, h = x - margin, y - margin, w + 2 * margin, h + 2 * margin
    box = [number(v, digits) for v in root.get("viewBox").split()]
    ensure(numpy.abs(numpy.array(box) - (x, y, w, h)).max() <= q + big, "view box", box, "expected", (x, y, w, h))
    ensure([number(root.get(k), digits) for k in ("width", "height")] == box[2:], "size", root.get("width"), root.get("height"), "of", box)
    ensure(len(rects) == (background is not None), "backgrounds", len(rects))
    for r in rects:
        b = [number(r.get(k), digits) for k in ("x", "y", "width", "height")]
        ensure(b == box and r.get("fill") == background, "background", b, r.get("fill"), "in", box)
        ensure([e.tag for e in root].index(SVG + "rect") < [e.tag for e in root].index(SVG + "g"), "the background hides the drawing")
    # styles
    sheets = list(root.iter(SVG + "style"))
    ensure(len(sheets) == 1, "style sheets", len(sheets))
    css = rules(sheets[0].text or "")
    classes = {("l%dd%d" % (a, b), (a, b)) for _, a, b in placed}
    fonts = {("l%dt%d" % (s[6], s[7]), (s[6], s[7])) for _, s in labels}
    for want, given, keys in ((classes, dict(style or []), ("fill", "stroke")), (fonts, dict(fontstyle or []), ("fill",))):
        for c, k in want:
            ensure(c in css, "no style for", c)
            if k in given:
                ensure(css[c] == {a: str(b) for a, b in given[k]}, "style of", c, css[c], "instead of", given[k])
                ctx.label("own style")
            else:
                for a in keys:
                    v = css[c].get(a, "")
                    ensure(v == "none" or re.match(r"rgb\((\d+), (\d+), (\d+)\)$", v) and all(int(d) < 256 for d in re.findall(r"\d+", v)), "default style of", c, css[c])
    ensure(set(css) == {c for c, _ in classes | fonts} or set(css) >= {c for c, _ in classes | fonts}, "styles", list(css))
    ctx.nt(len(inst) > 1 and H.interesting(spec, top) or bool(labels))
    ctx.label("to a " + dest, "digits %s" % digits, "no background" if background is None else "background")
    if labels:
        ctx.label("labels")


anytext = st.one_of(
    gen.ascii_text,
    st.text(st.characters(min_codepoint=33, max_codepoint=0x2FFF, exclude_categories=["Cc", "Cs", "Cn", "Zs", "Zl", "Zp"]), min_size=1, max_size=6),
    st.sampled_from(["<a>", "a & b", "&lt;", "x<y>z&w;", "]]>", "\"quoted\" 'text'"]),
).filter(lambda t: t.strip() == t)
cellname = st.one_of(st.sampled_from(["TOP", "A#1", "A_1", "A", "B", "C", "a.b", "A#", "A_", "A.23"]), gen.cell_name, st.sampled_from(["R&D", "a<b", '"q"', "it's", "\u00e9t\u00e9"]))
css = st.lists(
    st.tuples(st.sampled_from(["fill", "stroke", "fill-opacity", "stroke-width", "font-family"]), st.sampled_from(["#CC00FF", "black", "0.5", 2, "none", "url(#p)", "serif"])),
    min_size=1, max_size=3, unique_by=lambda t: t[0],
)
styles = st.one_of(st.none(), st.none(), st.lists(st.tuples(st.tuples(H.layer, H.layer), css), max_size=4, unique_by=lambda t: t[0]))
SUBS = [
    Sub(
        "drawing",
        st.tuples(
            H.cells(), st.lists(anytext, min_size=1, max_size=4), st.lists(cellname, min_size=1, max_size=4, unique=True),
            st.one_of(st.sampled_from([10, 10, 1, 0.5, 1000]), st.integers(1, 50000).map(lambda k: k / 1000)), st.sampled_from([None, None, 1, 2, 3, 6]), styles, styles,
            st.sampled_from(["#222", "#222", None, "white", "rgb(1, 2, 3)"]), st.sampled_from(["5%", "5%", "0%", "12.5%", "7", "0.25", 3, 0, 1.5]),
            st.sampled_from(["buffer", "buffer", "buffer", "path", "name", "file"]), st.just(0),
        ),
        check, 2500,
    )
]
