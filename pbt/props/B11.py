"""Native safety: arbitrary arguments against an asan and ubsan build."""
import ast
import os
import resource
import subprocess
import sys
import tempfile

import gen
from core import Sub, ensure
from hypothesis import strategies as st

RULE = (
    "Calls of the native routines and of the public functions above them (boolean, slice, offset, inside, fracture) in a separate process with an "
    "AddressSanitizer and UBSan build of the extension and every Python object in its own allocation.  Arguments: polygons on tiny grids with many "
    "coincident edges, polygons at the limits of the number range, and valid arguments with any part replaced by something malformed (wrong types, "
    "non-finite and huge numbers, arrays of all types and shapes, sequences that lie about their length, fail when read or empty themselves).  "
    "Afterwards the reference counts of everything passed are compared and the call is repeated to see whether memory is lost.  Non-trivial: the "
    "call returned something, or an exception for an argument with some valid parts."
)
ASSUMPTIONS = [
    "signed overflow is defined, as in the flags Python builds extensions with (-fwrapv)",
    "exceptions of any type but SystemError are accepted for any argument",
    "numbers of points, polygons and arc points are bounded (about 40 points per polygon)",
]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Child:
    def __init__(self):
        self.p = None

    def start(self):
        root = tempfile.mkdtemp(dir=os.environ.get("PBT_SCRATCH"))
        src = [d for d in os.environ["PYTHONPATH"].split(os.pathsep) if os.path.isdir(os.path.join(d, "gdspy"))][0]
        pkg = os.path.join(root, "gdspy")
        os.mkdir(pkg)
        for n in os.listdir(os.path.join(src, "gdspy")):
            f = os.path.join(src, "gdspy", n)
            if n.endswith(".so"):
                f = os.environ["PBT_ASAN_SO"]
            os.symlink(os.path.realpath(f), os.path.join(pkg, n))
        lib = [subprocess.check_output(["g++", "-print-file-name=" + n], text=True).strip() for n in ("libasan.so", "libubsan.so", "libstdc++.so")]
        env = dict(
            os.environ, LD_PRELOAD=" ".join(os.path.realpath(f) for f in lib), PYTHONMALLOC="malloc",
            PYTHONPATH=root + os.pathsep + HERE,
            ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2000:quarantine_size_mb=16:exitcode=99",
            UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1:exitcode=98",
        )
        self.err = tempfile.TemporaryFile(dir=root)
        self.p = subprocess.Popen(
            [sys.executable, os.path.join(HERE, "native_child.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env,
            preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, resource.getrlimit(resource.RLIMIT_AS)[1:] * 2),
        )
        line = self.p.stdout.readline()
        if line != b"ready\n":
            raise RuntimeError("the sanitizer process does not start: " + self.stop())
        self.cases = 0

    def stop(self):
        self.p.stdin.close()
        self.p.wait()
        rc, self.p = self.p.returncode, None
        self.err.seek(0)
        return "exit %s\n%s" % (rc, self.err.read().decode("utf8", "replace")[:3000])

    def run(self, case):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(repr(case).encode("ascii", "backslashreplace") + b"\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = b""
        if not line:
            raise AssertionError("the process ended: " + self.stop())
        self.cases += 1
        if self.cases > 3000:
            self.stop()
        return ast.literal_eval(line.decode("ascii"))


child = Child()


def check(case, ctx):
    what, good = child.run(case)
    ensure(good, what)
    ctx.label(case[0], case[0] + ": " + what)
    ctx.nt(what != "TypeError" or case[0] in ("clip", "offset", "inside", "chop"))


# ------------------------------------------------------------------ values

tiny = st.integers(0, 4)
grid = st.lists(st.tuples(tiny, tiny), min_size=3, max_size=24)
line = st.lists(st.tuples(st.integers(-30, 30), st.integers(0, 1)), min_size=3, max_size=12)
edge = st.sampled_from([2.0 ** 62, 2.0 ** 61, 2.0 ** 53, 2.0 ** 31, 2.0 ** 30, 1e9, 4.6e18, 1.0, 0.0]).flatmap(lambda v: st.sampled_from([v, -v]))
huge = st.lists(st.tuples(st.one_of(edge, st.integers(-2 ** 62, 2 ** 62)), st.one_of(edge, st.integers(-2 ** 62, 2 ** 62))), min_size=3, max_size=10)
polygon = st.one_of(grid, grid, grid, line, huge, gen.polygon)
polys = st.one_of(st.lists(polygon, max_size=4), st.lists(grid, min_size=1, max_size=6))
scaling = st.sampled_from([1, 1, 1, 1.0, 1000, 0.5, 1e9, 1e-9])

number = st.one_of(
    st.integers(-9, 9), st.sampled_from([("$f", "nan"), ("$f", "inf"), ("$f", "-inf"), ("$big", 400), ("$big", 18), 1e308, -1e308, 5e-324, -0.0, 2 ** 63, -(2 ** 63), 2 ** 62, 1e18]),
    st.sampled_from([None, "a", "1", True, 1j, ("$b",), [], (), ("$n", 2), ("$n", "x"), ("$erase",), ("$d",)]),
)
odd_point = st.one_of(
    st.tuples(number, number), st.tuples(number), st.just(()), st.tuples(number, number, number), number, st.lists(number, max_size=3), st.just("ab"),
    st.tuples(st.just("$a"), st.lists(st.integers(-5, 5), min_size=1, max_size=3), st.sampled_from(["float64", "int8", "complex128", "bool", "float32"])),
    st.tuples(st.just("$o"), st.sampled_from(["nolen", "lying", "broken", "badlen", "seq"]), st.lists(number, max_size=3)),
)
array = st.one_of(
    st.tuples(st.just("$a"), grid.map(lambda g: [list(p) for p in g]), st.sampled_from(["float64", "int64", "int8", "float32", "complex128", "uint16", "bool", "object", "U4", "S3"])),
    st.tuples(st.just("$a"), st.lists(st.integers(-5, 5), max_size=4), st.just("float64")),
    st.just(("$a", [[[0, 0], [1, 1], [2, 0]]], "float64")),
    st.just(("$a", 3, "float64")),
)


def tampered(good, odd):
    """A list with some items replaced, removed or added."""
    return st.tuples(good, st.integers(0, 20), odd, st.integers(0, 2)).map(
        lambda t: (lambda l, i, o, how: l[: i % (len(l) + 1)] + [o] * (how < 2) + l[i % (len(l) + 1) + (how != 1):])(list(t[0]), *t[1:])
    )


odd_polygon = st.one_of(
    tampered(grid, odd_point), tampered(grid, odd_point), st.lists(odd_point, max_size=3), array, number,
    grid.map(lambda g: g[:2]), st.just([]),
    st.tuples(st.just("$o"), st.sampled_from(["nolen", "lying", "broken", "badlen", "seq"]), grid),
    grid.map(lambda g: tuple(g)),
)
odd_set = st.one_of(
    tampered(polys, odd_polygon), tampered(polys, odd_polygon), tampered(polys, odd_polygon), st.lists(odd_polygon, max_size=3), odd_polygon,
    st.tuples(st.just("$o"), st.sampled_from(["nolen", "lying", "broken", "badlen", "seq"]), polys), grid,
)
anyset = st.one_of(polys, polys, polys, odd_set)
odd_op = st.one_of(st.sampled_from(["or", "and", "xor", "not"]), st.sampled_from(["or", "and", "xor", "not"]), st.sampled_from(["", "OR", "nand", None, 3, ("$b",), "o\0r"]))
odd_scaling = st.one_of(scaling, scaling, scaling, st.sampled_from([0, -1, ("$f", "nan"), ("$f", "inf"), 1e300, 5e-324, None, "a", 1j, ("$big", 400), True]))
odd_precision = st.one_of(st.sampled_from([1, 1, 1e-3, 0.5]), st.sampled_from([1, 1e-3]), st.sampled_from([-1, ("$f", "nan"), ("$f", "inf"), 1e300, 5e-324, 0, 0.0, None, "a", ("$n", 1)]))
position = st.one_of(st.integers(-2, 6), st.floats(-5, 5), st.sampled_from([1e300, -1e300, 2.0 ** 62, ("$f", "nan"), ("$f", "inf"), ("$f", "-inf"), ("$big", 400)]))
positions = st.one_of(
    st.lists(position, max_size=5), st.lists(position, max_size=5), tampered(st.lists(position, max_size=5), number),
    st.tuples(st.just("$o"), st.sampled_from(["nolen", "lying", "broken", "badlen", "seq"]), st.lists(position, max_size=4)), number, st.just(("$d",)), array,
)
distance = st.one_of(st.integers(-3, 3), st.floats(-5, 5), st.sampled_from([0, 0.0, 1e-300, 1e5, -1e5, ("$f", "nan"), ("$f", "inf"), ("$big", 400), None, "1", 2.0 ** 62, 1e300]))
join = st.tuples(st.just("bevel"), st.sampled_from([2, 0, -1, ("$f", "nan")])) | st.tuples(st.just("miter"), st.sampled_from([2, 1, 0, -5, 1e300, ("$f", "nan"), ("$f", "inf")])) | st.tuples(
    st.just("round"), st.sampled_from([2, 8, 64, 3.3, 1])) | st.tuples(st.sampled_from(["", "ROUND", None, 3]), st.sampled_from([2, None, "a"]))
arcs = st.one_of(st.integers(-3, 3), st.sampled_from([1e5, 1e18, -2.0 ** 60]))
small_int = st.sampled_from([0, 1, 1, 0, 2, 255, 256, -1, None, "a", 1.5, True])


def case(name, *args):
    return st.tuples(st.just(name), st.tuples(*args))


offset_args = st.tuples(anyset, distance, join, odd_scaling, small_int).map(lambda t: ("offset", (t[0], t[1], t[2][0], t[2][1], t[3], t[4])))
grow_args = st.tuples(anyset, distance, join, odd_precision, st.booleans(), st.sampled_from([199, 0, 5, 6, -1, None])).map(
    lambda t: ("grow", (t[0], t[1], t[2][0], t[2][1], t[3], t[4], t[5]))
)
maxpts = st.sampled_from([199, 0, 5, 6, 8, 4, -1, 2 ** 40, ("$f", "inf"), None])
short = st.sampled_from([0, 0, 1, 1, -1, -1, 2, -300, 40000, 32767, None, "a"])
SUBS = [
    Sub("clip", case("clip", anyset, anyset, odd_op, odd_scaling), check, 2200),
    Sub("clip grids", case("clip", st.lists(grid, min_size=1, max_size=4), st.lists(grid, min_size=1, max_size=3), st.sampled_from(["or", "and", "xor", "not"]), st.just(1)), check, 1600),
    Sub("offset", offset_args, check, 1600),
    Sub("inside", case("inside", anyset, anyset, short, odd_scaling), check, 1600),
    Sub("chop", case("chop", st.one_of(polygon, polygon, odd_polygon), positions, small_int, odd_scaling), check, 1800),
    Sub("boolean", case("boolean", anyset, anyset, odd_op, odd_precision, maxpts), check, 800),
    Sub("slice", case("slice", anyset, positions, small_int, odd_precision), check, 700),
    Sub("grow", grow_args, check, 700),
    Sub("contains", case("contains", st.one_of(anyset, grid), anyset, st.sampled_from(["any", "all", None, 3]), odd_precision), check, 700),
    Sub("fracture", case("fracture", anyset, maxpts, odd_precision), check, 700),
]
