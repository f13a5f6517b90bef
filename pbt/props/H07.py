"""Layer, type and dependency queries."""
import gdspy
import hier as H
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Random acyclic hierarchies of up to 5 cells with every kind of element, resolved and unresolved references and many "
    "layers; all set-valued queries of every cell, and the top-level cells of libraries holding some of the cells, are "
    "compared with sets computed from the specification. Non-trivial: some answer differs from the one that ignores "
    "references."
)

wide = st.integers(0, 40)
pset = st.lists(st.tuples(H.verts, wide, wide), min_size=1, max_size=3).flatmap(lambda ps: st.tuples(st.just(ps), st.none()))
label = st.tuples(st.just("t"), H.pt, st.just("o"), st.none(), st.none(), st.just(False), wide, wide, st.none())
path = st.tuples(
    st.sampled_from(["flex", "gdsflex", "robust", "gdsrobust"]), st.just([(0, 0), (9, 0)]),
    st.just(([-2, 2], [1, 1])), st.just("flush"), st.lists(wide, min_size=2, max_size=2),
    st.lists(wide, min_size=2, max_size=2), st.just(False), st.none(),
)
cell = st.tuples(st.lists(pset, max_size=2), st.lists(path, max_size=1), st.lists(label, max_size=2), st.lists(st.one_of(H.ref, H.arr), max_size=3))


def own(c):
    ld = set((a, b) for ps, _ in c[0] for _, a, b in ps)
    for s in c[1]:
        ld |= set(zip(s[4], s[5]))
    lt = set((s[6], s[7]) for s in c[2])
    return ld, lt


def check(case, ctx):
    spec, members = case
    objs = H.make(spec)
    direct, full = [], []
    for i, c in enumerate(spec):
        d = set(H.tgt(i, s[1]) for s in c[3])
        d = set(t for t in d if not isinstance(t, str))
        direct.append(d)
        full.append(d.union(*[full[t] for t in d]) if d else set())
    interesting = False
    for rounds in range(2):
        for i, c in enumerate(objs):
            o = own(spec[i])
            ld, lt = set(o[0]), set(o[1])
            for t in full[i]:
                a, b = own(spec[t])
                ld |= a
                lt |= b
            interesting |= (ld, lt) != o or full[i] != direct[i]
            ensure(c.get_layers() == set(a for a, _ in ld | lt), "layers", c.get_layers(), ld, lt)
            ensure(c.get_datatypes() == set(b for _, b in ld), "datatypes", c.get_datatypes(), ld)
            ensure(c.get_texttypes() == set(b for _, b in lt), "texttypes", c.get_texttypes(), lt)
            g = c.get_svg_classes()
            ensure(len(g) == 2 and g[0] == ld and g[1] == lt, "svg classes", g, ld, lt)
            ensure(c.get_dependencies() == set(objs[t] for t in direct[i]), "dependencies", i, [x.name for x in c.get_dependencies()], direct[i])
            ensure(c.get_dependencies(False) == set(objs[t] for t in direct[i]), "dependencies", i)
            ensure(c.get_dependencies(True) == set(objs[t] for t in full[i]), "recursive dependencies", i, [x.name for x in c.get_dependencies(True)], full[i])
            # the answers belong to the caller
            for s in (c.get_layers(), c.get_datatypes(), c.get_texttypes(), g[0], g[1], c.get_dependencies(), c.get_dependencies(True)):
                s.clear()
    lib = gdspy.GdsLibrary()
    inside = [i for i in range(len(objs)) if members[i]]
    lib.add([objs[i] for i in inside], include_dependencies=False)
    used = set().union(*[direct[i] for i in inside]) if inside else set()
    top = lib.top_level()
    ensure(isinstance(top, list), "top_level", top)
    exp = [i for i in inside if i not in used]
    ensure(len(top) == len(exp) and set(top) == set(objs[i] for i in exp), "top level", [c.name for c in top], "expected", exp)
    ctx.nt(interesting)
    ctx.label("cells %d" % len(spec), "all in library" if len(inside) == len(objs) else "some in library")


SUBS = [
    Sub("queries", st.tuples(st.lists(cell, min_size=1, max_size=8), st.one_of(st.just([True] * 8), st.lists(st.booleans(), min_size=8, max_size=8))), check, 3000)
]
