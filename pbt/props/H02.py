"""Polygon sets, paths and labels collected from a hierarchy."""
import math

import numpy

import gdspy
import hier as H
import oracle
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Random acyclic hierarchies (see H01) with polygon sets, flexible and robust paths and labels; the copies collected "
    "from the top cell and from its references, at all depths, are compared with the originals placed by an independent "
    "affine model, modified in place, and collected again. Non-trivial: an element is collected through a reference that "
    "transforms or repeats."
)
ASSUMPTIONS = ["polygons of a path in its own cell are taken from the path (decided by P03 and P07)"]


def lin(m):
    """(rotation in degrees, magnification, reflection) of an affine map."""
    a = m[0]
    det = a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    return math.degrees(math.atan2(a[1, 0], a[0, 0])), math.sqrt(abs(det)), det < 0


def angle_close(a, b, t=1e-6):
    return abs((a - b + 180) % 360 - 180) <= t


def match(got, exp, same, what):
    """Greedy multiset matching, in order first."""
    ensure(len(got) == len(exp), what, "collected", len(got), "expected", len(exp))
    rest = list(exp)
    for g in got:
        for j, e in enumerate(rest):
            if same(g, e):
                del rest[j]
                break
        else:
            raise AssertionError("%s: %s matches none of %s" % (what, describe(g), [repr(e)[:300] for e in rest[:3]]))


def describe(g):
    if isinstance(g, gdspy.PolygonSet):
        return repr(([p.tolist() for p in g.polygons], g.layers, g.datatypes, g.properties))
    if isinstance(g, gdspy.Label):
        return repr((g.text, list(g.position), g.anchor, g.rotation, g.magnification, g.x_reflection, g.layer, g.texttype, g.properties))
    return repr((type(g).__name__, [p.tolist() for p in g.get_polygons()], g.layers, g.datatypes, g.properties))


def same_pset(t):
    def f(g, e):
        m, (ps, pr) = e
        return (
            isinstance(g, gdspy.PolygonSet)
            and list(g.layers) == [a for _, a, _ in ps]
            and list(g.datatypes) == [b for _, _, b in ps]
            and dict(g.properties) == dict(pr or [])
            and len(g.polygons) == len(ps)
            and all(oracle.close(a, H.apply(m, b[0]), t) for a, b in zip(g.polygons, ps))
        )
    return f


def same_path(t, originals):
    def f(g, e):
        m, key = e
        s, orig, polys = originals[key]
        if type(g) is not type(orig) or list(g.layers) != list(orig.layers) or list(g.datatypes) != list(orig.datatypes):
            return False
        if dict(g.properties) != dict(orig.properties) or g.gdsii_path != orig.gdsii_path or g.n != orig.n:
            return False
        got = g.get_polygons(True)
        if set(got) != set(polys):
            return False
        mag = max(1.0, lin(m)[1])
        for k in polys:
            exp = [H.apply(m, p) for p in polys[k]]
            if len(got[k]) == len(exp) and all(oracle.close(a, b, t) for a, b in zip(got[k], exp)):
                continue
            bg, be = oracle.bbox(got[k]), oracle.bbox(exp)
            lim = 0.03 * mag + t
            if max(numpy.abs(bg[0] - be[0]).max(), numpy.abs(bg[1] - be[1]).max()) > lim:
                return False
            x = oracle.xor_area(got[k], exp)
            if x > 0.02 * mag * (oracle.total_perimeter(exp)) + 1e-9 * t:
                return False
        return True
    return f


def same_label(t, transform):
    def f(g, e):
        m, (text, pos, an, ro, mg, xr, ly, tt, pr) = e
        r, q, x = lin(m)
        if not isinstance(g, gdspy.Label) or (g.text, g.layer, g.texttype) != (text, ly, tt):
            return False
        if g.anchor not in anchors(an) or dict(g.properties) != dict(pr or []):
            return False
        if not oracle.close(g.position, H.apply(m, [pos])[0], t):
            return False
        if not transform:
            return (g.rotation, g.magnification, bool(g.x_reflection)) == (ro, mg, xr)
        er = r + (-1 if x else 1) * (ro or 0)
        em = q * (1 if mg is None else mg)
        gm = 1 if g.magnification is None else g.magnification
        return angle_close(g.rotation or 0, er) and abs(gm - em) <= 1e-9 * em and bool(g.x_reflection) == (xr != x)
    return f


def anchors(a):
    n = {"o": 5, "n": 1, "s": 9, "e": 6, "w": 4, "nw": 0, "ne": 2, "sw": 8, "se": 10}
    return (a, n.get(a))


def collect(obj, depth):
    kw = {} if depth is None else {"depth": depth}
    return (
        obj.get_polygonsets(**kw), obj.get_paths(**kw), obj.get_labels(**kw), obj.get_labels(set_transform=True, **kw),
    )


def verify(res, spec, maps, t, originals, what):
    cells = [(m, k) for kind, m, k in maps if kind == "cell"]
    ps, pa, la, lt = res
    match(ps, [(m, s) for m, k in cells for s in spec[k][0]], same_pset(t), what + " polygon sets")
    match(pa, [(m, (k, j)) for m, k in cells for j in range(len(spec[k][1]))], same_path(t, originals), what + " paths")
    lab = [(m, s) for m, k in cells for s in spec[k][2]]
    match(la, lab, same_label(t, False), what + " labels")
    match(lt, lab, same_label(t, True), what + " transformed labels")


def spoil(res):
    """Change everything that was returned."""
    for p in res[0]:
        for v in p.polygons:
            v += 1000
        p.layers[:] = [77] * len(p.layers)
        p.datatypes.append(5)
        p.properties[101] = "x"
        del p.polygons[:]
    for p in res[1]:
        p.translate(1234, 4321)
        p.layers[0] = 66
        p.datatypes[0] = 66
        p.properties[101] = "x"
        p.ends[0] = "round"
    for ls in res[2:]:
        for l in ls:
            l.position += 55
            l.text = "gone"
            l.properties[101] = "x"


def check(case, ctx):
    spec, depth = case
    top = len(spec) - 1
    if H.size(spec, top) > 60:
        spec = spec[:2]
        top = len(spec) - 1
    objs = H.make(spec)
    t = 1e-9 * H.scale_of(spec)
    originals = {}
    for k, c in enumerate(spec):
        for j, s in enumerate(c[1]):
            o = H.make_path(s)
            originals[k, j] = (s, o, o.get_polygons(True))
    maps = list(H.instances(spec, top, depth))
    targets = [("cell", objs[top], maps)]
    for r, s in zip(objs[top].references, spec[top][3]):
        k = H.tgt(top, s[1])
        if isinstance(k, str):
            targets.append(("reference", r, []))
            continue
        inner = list(H.instances(spec, k, depth))
        targets.append(("reference", r, [(kind, H.compose(o, m), c) for o in H.ref_maps(s) for kind, m, c in inner]))
    for what, obj, mp in targets:
        res = collect(obj, depth)
        verify(res, spec, mp, t, originals, what)
        spoil(res)
    for what, obj, mp in targets[:2]:
        verify(collect(obj, depth), spec, mp, t, originals, what + " after changing earlier results")
    through = [k for kind, m, k in maps[1:] if kind == "cell" and (spec[k][0] or spec[k][1] or spec[k][2])]
    ctx.nt(bool(through) and H.interesting(spec, top))
    for k in through:
        for name, n in (("polygon set", 0), ("path", 1), ("label", 2)):
            if spec[k][n]:
                ctx.label("placed " + name)
        for s in spec[k][1]:
            ctx.label("placed " + s[0])
    ctx.label("depth %s" % depth)


SUBS = [Sub("collect", st.tuples(H.cells(), st.sampled_from([None, None, None, 0, 1, 1, 2])), check, 2400)]
