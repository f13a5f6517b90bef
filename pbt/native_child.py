"""Child process of B11: one case per line on stdin, one verdict per line on
stdout.  Runs with the sanitizer build of the extension; anything that ends the
process is reported by the parent."""
import ast
import ctypes
import faulthandler
import gc
import sys
import warnings

import numpy

import gdspy
from gdspy import clipper

warnings.simplefilter("ignore")
LIMIT = 60  # seconds for one case


class NoLen:
    def __init__(self, v):
        self.v = v

    def __getitem__(self, i):
        return self.v[i]


class Lying(NoLen):
    """A sequence that claims more items than it has."""

    def __len__(self):
        return len(self.v) + 2


class Broken(NoLen):
    """A sequence whose last item cannot be read."""

    def __len__(self):
        return len(self.v)

    def __getitem__(self, i):
        if i >= len(self.v) - 1:
            raise RuntimeError("broken")
        return self.v[i]


class BadLen(NoLen):
    def __len__(self):
        raise RuntimeError("broken")


class Sequence(NoLen):
    """A well-behaved sequence that makes its items when asked."""

    def __len__(self):
        return len(self.v)


class Number:
    def __init__(self, v):
        self.v = v

    def __float__(self):
        if not isinstance(self.v, (int, float)):
            raise RuntimeError("broken")
        return float(self.v)


class Eraser:
    """A number that empties the list it is in when read."""

    def __init__(self, v):
        self.v = v
        self.owner = None

    def __float__(self):
        if self.owner is not None:
            del self.owner[:]
        return 1.0


KINDS = {"nolen": NoLen, "lying": Lying, "broken": Broken, "badlen": BadLen, "seq": Sequence}


def decode(x, erasers):
    if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0][:1] == "$":
        if x[0] == "$f":
            return float(x[1])
        if x[0] == "$big":
            return 10 ** x[1]
        if x[0] == "$a":
            return numpy.array(x[1], dtype=x[2])
        if x[0] == "$d":
            return {0: 1}
        if x[0] == "$b":
            return b"abc"
        if x[0] == "$n":
            return Number(x[1])
        if x[0] == "$erase":
            e = Eraser(0)
            erasers.append(e)
            return e
        if x[0] == "$o":
            return KINDS[x[1]](decode(x[2], erasers))
    if isinstance(x, list):
        out = [decode(i, erasers) for i in x]
        for e in erasers:
            if e.owner is None:
                e.owner = out
        return out
    if isinstance(x, tuple):
        return tuple(decode(i, erasers) for i in x)
    return x


def walk(x, out, depth=0):
    """All objects that make up an argument."""
    out.append(x)
    if depth < 5:
        if isinstance(x, (list, tuple)):
            for i in x:
                walk(i, out, depth + 1)
        elif hasattr(x, "v"):
            walk(x.v, out, depth + 1)


def sound(r):
    """Whether a native result is what it should be, down to its numbers."""
    if isinstance(r, bool):
        return True
    if not isinstance(r, tuple):
        return False
    stack = [r]
    while stack:
        t = stack.pop()
        for x in t:
            if isinstance(x, tuple):
                stack.append(x)
            elif not isinstance(x, (float, bool)):
                return False
            elif isinstance(x, float) and x != x:
                return False
    return True


def call(name, args):
    if name == "clip":
        return clipper.clip(*args)
    if name == "offset":
        return clipper.offset(*args)
    if name == "inside":
        return clipper.inside(*args)
    if name == "chop":
        return clipper._chop(*args)
    if name == "boolean":
        return gdspy.boolean(*args)
    if name == "slice":
        return gdspy.slice(*args)
    if name == "grow":
        return gdspy.offset(*args)
    if name == "contains":
        return gdspy.inside(*args)
    if name == "fracture":
        return gdspy.PolygonSet(args[0]).fracture(*args[1:])
    raise ValueError(name)


try:
    current = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    current.restype = ctypes.c_size_t
except AttributeError:
    current = None


def once(name, args):
    try:
        call(name, args)
    except Exception:
        pass


def grows(name, args, calls):
    """Whether every round of calls leaves more memory behind."""
    marks = [current()]
    for _ in range(3):
        for _ in range(calls):
            once(name, args)
        marks.append(current())
    return all(b - a >= 16 * calls for a, b in zip(marks, marks[1:]))


def run(case):
    name, spec = case
    erasers = []
    args = decode(spec, erasers)
    objs = []
    walk(args, objs)
    # the list of objects itself holds one reference to each
    before = [sys.getrefcount(o) for o in objs]
    outcome = "result"
    try:
        r = call(name, args)
        if name in ("clip", "offset", "inside", "chop"):
            if not sound(r):
                return "bad result %.200r" % (r,), 0
            outcome = "result" if r else "empty"
        del r
    except Exception as e:
        if isinstance(e, SystemError):
            return "SystemError: %s" % e, 0
        outcome = type(e).__name__
        e.__traceback__ = None
        del e
    if not erasers:
        after = [sys.getrefcount(o) for o in objs]
        for o, a, b in zip(objs, before, after):
            if a != b:
                return "reference count of %.80r went from %d to %d" % (o, a, b), 0
        if current is not None:
            once(name, args)
            once(name, args)
            if grows(name, args, 3) and grows(name, args, 8):
                # free lists hold up to 2000 objects of a kind
                for _ in range(2200):
                    once(name, args)
                if grows(name, args, 16):
                    return "memory is lost in every call", 0
    return outcome, 1


def main():
    # collections empty the free lists of the interpreter, which would look
    # like growth afterwards; one of them (tuples of 20) is never taken from
    gc.disable()
    for k in range(1, 21):
        spare = [tuple([None] * k) for _ in range(2050)]
        del spare
    out = sys.stdout.buffer
    out.write(b"ready\n")
    out.flush()
    for line in sys.stdin:
        case = ast.literal_eval(line)
        faulthandler.dump_traceback_later(LIMIT, exit=True)
        r = run(case)
        faulthandler.cancel_dump_traceback_later()
        out.write(repr(r).encode("ascii", "backslashreplace") + b"\n")
        out.flush()


main()
