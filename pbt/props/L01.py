"""Library operations against a dictionary model."""
import itertools

import gdspy
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Histories of up to 14 operations (add with every combination of dependencies, overwriting and updating, new_cell, "
    "remove, rename_cell, replace_references, adding references by object or name) over two libraries and cells with 5 "
    "colliding names; after each operation names, cells, every reference, the answer and the top-level cells are compared "
    "with a dictionary model. Non-trivial: an operation replaced, removed, renamed or rejected something that existed.  "
    "closure: up to 6 cells of an acyclic hierarchy of up to 12 are added at once; the library must hold exactly what they reach."
)
ASSUMPTIONS = [
    "operations that would make cells reference each other in a cycle are not generated",
    "adding several cells at once is only judged when the outcome does not depend on the order in which they are added",
]

NAMES = ["A", "B", "C", "D", "E"]
b = st.booleans()
idx = st.integers(0, 11)
name = st.sampled_from(NAMES)
tgt = st.one_of(idx, idx, name)  # a cell of the pool or a name
op = st.one_of(
    st.tuples(st.just("cell"), name, st.lists(tgt, max_size=3)),
    st.tuples(st.just("cell"), name, st.lists(tgt, max_size=3)),
    st.tuples(st.just("ref"), idx, tgt),
    st.tuples(st.just("add"), st.lists(idx, min_size=1, max_size=3), st.sampled_from(["one", "list", "tuple", "set", "gen"]), b, b, b),
    st.tuples(st.just("add"), st.lists(idx, min_size=1, max_size=1), st.just("one"), b, b, b),
    st.tuples(st.just("add"), st.lists(idx, min_size=1, max_size=1), st.just("defaults"), st.just(True), st.just(False), st.just(True)),
    st.tuples(st.just("new"), name, b, b),
    st.tuples(st.just("remove"), tgt, b),
    st.tuples(st.just("rename"), tgt, st.sampled_from(NAMES + ["F", "G"]), b),
    st.tuples(st.just("replace"), tgt, tgt),
    st.just(("other",)),
)


class Model:
    """names: name of each pool cell; refs: targets of each pool cell (index
    or name); lib: name to index, for the current library."""

    def __init__(self):
        self.names, self.refs, self.lib = [], [], {}

    def clone(self):
        m = Model()
        m.names, m.refs, m.lib = list(self.names), [list(r) for r in self.refs], dict(self.lib)
        return m

    def state(self):
        return (self.names, self.refs, sorted(self.lib.items()))

    def tname(self, t):
        return t if isinstance(t, str) else self.names[t]

    def deps(self, i, seen=None):
        seen = set() if seen is None else seen
        for t in self.refs[i]:
            if not isinstance(t, str) and t not in seen:
                seen.add(t)
                self.deps(t, seen)
        return seen

    def cyclic(self):
        state = {}

        def visit(i):
            if state.get(i) == 1:
                return True
            if state.get(i) == 2:
                return False
            state[i] = 1
            r = any(visit(t) for t in self.refs[i] if not isinstance(t, str))
            state[i] = 2
            return r

        return any(visit(i) for i in range(len(self.names)))

    def replace(self, old, new):
        if isinstance(new, str):
            new = self.lib.get(new, new)
        n = 0
        for i in self.lib.values():
            for j, t in enumerate(self.refs[i]):
                if self.tname(t) == old:
                    self.refs[i][j] = new
                    n += 1
        return n

    def put(self, i, overwrite, update):
        """Add one cell; False if rejected."""
        k = self.names[i]
        if k in self.lib and self.lib[k] != i:
            if not overwrite:
                return False
            if update:
                self.replace(k, i)
        self.lib[k] = i
        return True

    def put_all(self, members, overwrite, update):
        """Outcome of adding the cells in any order; None if it depends on it."""
        out = None
        for order in itertools.permutations(sorted(members)):
            m = self.clone()
            ok = all([m.put(i, overwrite, update) for i in order])
            if not ok:
                return "rejected"
            if out is None:
                out = m
            elif out.state() != m.state():
                return None
        return out


def check(case, ctx):
    seeds, ops = case
    pool = []
    m = Model()
    lib, other_lib, other_map = gdspy.GdsLibrary("one"), gdspy.GdsLibrary("two"), {}
    hits = 0

    def make_ref(t, k):
        t = t if isinstance(t, str) else pool[t]
        if k % 2:
            return gdspy.CellArray(t, 2, 3, (4, 5), ignore_missing=True)
        return gdspy.CellReference(t, (1, 2), ignore_missing=True)

    def resolve(t):
        return t if isinstance(t, str) else t % len(pool) if pool else "A"

    def new_cell(n, targets):
        c = gdspy.Cell(n)
        tg = [resolve(t) for t in targets]
        for k, t in enumerate(tg):
            c.add(make_ref(t, k))
        pool.append(c)
        m.names.append(n)
        m.refs.append(tg)

    def verify(what):
        ensure(set(lib.cells) == set(m.lib), what, "names", sorted(lib.cells), "expected", sorted(m.lib))
        for n, i in m.lib.items():
            ensure(lib.cells[n] is pool[i], what, "the cell named", n, "is not the last one put there")
            ensure(lib.cells[n].name == n, what, "cell", n, "is called", lib.cells[n].name)
        for i, c in enumerate(pool):
            ensure(c.name == m.names[i], what, "name of cell", i, c.name, "expected", m.names[i])
            got = [r.ref_cell for r in c.references]
            ensure(
                len(got) == len(m.refs[i])
                and all((g == t if isinstance(t, str) else g is pool[t]) for g, t in zip(got, m.refs[i])),
                what, "references of cell", i, c.name, got, "expected", m.refs[i],
            )
        ensure(set(map(id, lib)) == set(id(pool[i]) for i in m.lib.values()), what, "iteration")
        for n, i in other_map.items():
            ensure(other_lib.cells.get(n) is pool[i], what, "another library changed")
        used = set(t for i in m.lib.values() for t in m.refs[i] if not isinstance(t, str))
        top = lib.top_level()
        ensure(set(map(id, top)) == set(id(pool[i]) for i in m.lib.values() if i not in used), what, "top level", [c.name for c in top])

    for n, targets in seeds:
        new_cell(n, targets)
    verify("start")
    for o in ops:
        kind = o[0]
        what = repr(o)
        if kind == "cell":
            if len(pool) < 12:
                new_cell(o[1], o[2])
        elif kind == "ref":
            if not pool:
                continue
            i, t = o[1] % len(pool), resolve(o[2])
            if not isinstance(t, str) and (t == i or i in m.deps(t)):
                continue
            pool[i].add(make_ref(t, len(m.refs[i])))
            m.refs[i].append(t)
        elif kind == "add":
            if not pool:
                continue
            _, members, form, deps, over, upd = o
            ms = [i % len(pool) for i in members]
            full = set(ms)
            if deps:
                for i in ms:
                    full |= m.deps(i)
            if len(set(m.names[i] for i in full)) < len(full) or len(full) > 5:
                continue
            res = m.put_all(full, over, upd)
            if res is None or (res != "rejected" and res.cyclic()):
                continue
            cells = [pool[i] for i in ms]
            arg = {"one": cells[0] if len(cells) == 1 else cells, "list": cells, "tuple": tuple(cells), "set": set(cells), "gen": (c for c in cells), "defaults": cells[0]}[form]
            try:
                ret = lib.add(arg) if form == "defaults" else lib.add(arg, include_dependencies=deps, overwrite_duplicate=over, update_references=upd)
            except ValueError:
                ensure(res == "rejected", what, "was rejected")
                hits += 1
                # cells before the conflict may have been added; nothing else
                for n, c in lib.cells.items():
                    if n in m.lib:
                        ensure(c is pool[m.lib[n]], what, "the existing entry", n, "changed")
                    else:
                        new = [i for i in full if pool[i] is c]
                        ensure(new and m.names[new[0]] == n, what, "unexpected entry", n)
                        m.lib[n] = new[0]
                ctx.label("rejected add")
            else:
                ensure(res != "rejected", what, "a conflicting name was accepted")
                ensure(ret is lib, what, "add must return the library")
                hits += sum(1 for i in full if m.lib.get(m.names[i], i) != i)
                m.lib, m.refs = res.lib, res.refs
        elif kind == "new":
            _, n, over, upd = o
            if len(pool) >= 12:
                continue
            try:
                c = lib.new_cell(n, overwrite_duplicate=over, update_references=upd)
            except ValueError:
                ensure(n in m.lib and not over, what, "was rejected")
                hits += 1
                ctx.label("rejected new cell")
            else:
                ensure(over or n not in m.lib, what, "a conflicting name was accepted")
                ensure(isinstance(c, gdspy.Cell) and c.name == n and list(c) == [] and all(c is not p for p in pool), what, "new cell", c)
                pool.append(c)
                m.names.append(n)
                m.refs.append([])
                hits += n in m.lib
                m.put(len(pool) - 1, over, upd)
        elif kind == "remove":
            _, t, rr = o
            t = resolve(t)
            n = m.tname(t)
            if not isinstance(t, str) and m.lib.get(n, t) != t:
                continue
            arg = t if isinstance(t, str) else pool[t]
            ret = lib.remove(arg, remove_references=rr)
            hits += n in m.lib
            m.lib.pop(n, None)
            removed = 0
            if rr:
                for i in m.lib.values():
                    left = [x for x in m.refs[i] if m.tname(x) != n]
                    removed += len(m.refs[i]) - len(left)
                    m.refs[i] = left
            ensure(ret == removed, what, "returned", ret, "removed", removed)
        elif kind == "rename":
            _, t, new, upd = o
            t = resolve(t)
            arg = t if isinstance(t, str) else pool[t]
            n = m.tname(t)
            i = m.lib.get(n)
            legal = i is not None and (isinstance(t, str) or i == t) and new not in m.lib
            if legal and upd:
                x = m.clone()
                x.names[i] = new
                del x.lib[n]
                x.lib[new] = i
                count = x.replace(n, i)
                if x.cyclic():
                    continue
            try:
                ret = lib.rename_cell(arg, new, update_references=upd)
            except ValueError:
                ensure(not legal, what, "was rejected")
                ctx.label("rejected rename")
                hits += 1
            else:
                ensure(legal, what, "an impossible renaming was accepted")
                hits += 1
                if upd:
                    m = x
                    ensure(ret == count, what, "returned", ret, "updated", count)
                else:
                    del m.lib[n]
                    m.lib[new] = i
                    m.names[i] = new
        elif kind == "replace":
            _, a, c = o
            a, c = resolve(a), resolve(c)
            x = m.clone()
            count = x.replace(m.tname(a), c)
            if x.cyclic():
                continue
            ret = lib.replace_references(a if isinstance(a, str) else pool[a], c if isinstance(c, str) else pool[c])
            ensure(ret == count, what, "returned", ret, "replaced", count)
            hits += count > 0
            m = x
        elif kind == "other":
            # the same cells may also be in another library, which must not notice
            lib, other_lib = other_lib, lib
            m.lib, other_map = other_map, m.lib
            # renaming cells of the other library is the user's affair
            ok = {k: v for k, v in m.lib.items() if m.names[v] == k}
            if ok != m.lib:
                lib.cells.clear()
                for k, v in ok.items():
                    lib.cells[k] = pool[v]
                m.lib = ok
        ctx.label(kind)
        verify(what)
    ctx.nt(hits > 0)


def check_extract(case, ctx):
    """The deprecated extraction into the global library."""
    names, refs, which, by_name, clash, over = case
    gdspy.current_library = gdspy.GdsLibrary()
    lib = gdspy.GdsLibrary()
    cells = []
    deps = []
    for i, n in enumerate(names):
        c = gdspy.Cell(n)
        d = set()
        for t in refs[i]:
            if i:
                c.add(gdspy.CellReference(cells[t % i]))
                d |= {t % i} | deps[t % i]
        cells.append(c)
        deps.append(d)
        lib.add(c, include_dependencies=False)
    k = which % len(names)
    exp = deps[k] | {k}
    old = None
    if clash is not None:
        old = gdspy.Cell(names[clash % len(names)])
        gdspy.current_library.add(old)
    try:
        ret = lib.extract(names[k] if by_name else cells[k], overwrite_duplicate=over)
    except ValueError:
        ensure(old is not None and not over and clash % len(names) in exp, "extract was rejected")
        ensure(gdspy.current_library.cells[old.name] is old, "the existing entry changed")
    else:
        ensure(ret is cells[k], "extract returns the cell")
        want = {names[i]: cells[i] for i in exp}
        if old is not None:
            ensure(over or clash % len(names) not in exp, "a conflicting name was accepted")
            want.setdefault(old.name, old)
        got = gdspy.current_library.cells
        ensure(set(got) == set(want) and all(got[n] is want[n] for n in want), "extracted", sorted(got), "expected", sorted(want))
    ensure(set(lib.cells) == set(names) and all(lib.cells[n] is c for n, c in zip(names, cells)), "the source library changed")
    ctx.nt(bool(deps[k]))


def check_closure(case, ctx):
    """Adding several cells brings everything they depend on, and only that."""
    edges, starts, form, deps, arrays = case
    cells = [gdspy.Cell("N%d" % i) for i in range(len(edges))]
    below = []
    for i, ts in enumerate(edges):
        full = set()
        for n, t in enumerate(ts):
            if i:
                t = i - 1 - t % i
                cells[i].add(gdspy.CellArray(cells[t], 2, 1, (3, 3)) if (n + arrays) % 2 else gdspy.CellReference(cells[t]))
                full |= {t} | below[t]
        below.append(full)
    picked = [k % len(edges) for k in starts]
    want = set(picked).union(*(below[k] for k in picked)) if deps else set(picked)
    chosen = [cells[k] for k in picked]
    lib = gdspy.GdsLibrary()
    if form == "each":
        for c in chosen:
            lib.add(c, include_dependencies=deps)
    else:
        lib.add({"list": list, "tuple": tuple, "set": set, "gen": iter}[form](chosen), include_dependencies=deps)
    ensure(set(lib.cells) == {"N%d" % k for k in want} and all(lib.cells["N%d" % k] is cells[k] for k in want), "added", sorted(lib.cells), "expected", sorted(want))
    for i, c in enumerate(cells):
        ensure(c.get_dependencies(True) == {cells[k] for k in below[i]}, "dependencies of", i)
    top = {k for k in want if not any(k in below[j] for j in want)}
    ensure(set(c.name for c in lib.top_level()) == {"N%d" % k for k in top} or not deps, "top level", [c.name for c in lib.top_level()])
    ctx.label(form, *(["deep"] if any(len(below[k]) > 2 for k in picked) else []))
    ctx.nt(len(set(picked)) > 1 and len(want) > len(set(picked)))


SUBS = [
    Sub(
        "closure",
        st.tuples(
            st.lists(st.lists(st.integers(0, 7), max_size=3), min_size=2, max_size=12), st.lists(st.integers(0, 11), min_size=1, max_size=6),
            st.sampled_from(["list", "tuple", "set", "gen", "each"]), st.sampled_from([True, True, True, False]), st.integers(0, 1),
        ),
        check_closure, 1500,
    ),
    Sub("history", st.tuples(st.lists(st.tuples(name, st.lists(tgt, max_size=2)), max_size=4), st.lists(op, min_size=2, max_size=14)), check, 12000),
    Sub(
        "extract",
        st.tuples(
            st.permutations(NAMES).map(lambda p: list(p)), st.lists(st.lists(st.integers(0, 4), max_size=2), min_size=5, max_size=5),
            st.integers(0, 4), b, st.one_of(st.none(), st.integers(0, 4)), b,
        ),
        check_extract, 800,
    ),
]
