"""Analytic model of robust paths: pieces of displaced curves with widths."""
import math

import hobbymodel
import numpy
import strokes


def lin(a, b):
    return lambda u: a * (1 - u) + b * u


def const(a):
    return lambda u: a


# variations of width and offset used instead of numbers
def wave(a, k):
    return lambda u: a * math.sin(k * u)


def bump(a, b):
    return lambda u: a + b * u * (1 - u)


def value(spec):
    """Argument given to the path for one width or offset."""
    if isinstance(spec, tuple):
        return {"wave": wave, "bump": bump}[spec[0]](*spec[1:])
    return spec


class Piece:
    """Displaced curve with positive offset to the right, in a later frame."""

    def __init__(self, f, df, off, wid):
        self.f, self.df, self.off, self.wid = f, df, off, wid
        self.numeric = False
        self.M, self.t, self.s = numpy.eye(2), numpy.zeros(2), 1.0

    def speed(self, u):
        return math.hypot(*self.df(u))

    def normal(self, u):
        d = self.df(u)
        return numpy.array([d[1], -d[0]]) / math.hypot(*d)

    def local(self, u):
        return self.f(u) + self.off(u) * self.normal(u)

    def at(self, u):
        return self.M @ self.local(u) + self.t

    def slope(self, u, h=1e-5):
        """Derivative and size of the second derivative of the displaced curve."""
        if u < h:
            return (4 * self.at(u + h) - 3 * self.at(u) - self.at(u + 2 * h)) / (2 * h)
        if u > 1 - h:
            return (3 * self.at(u) - 4 * self.at(u - h) + self.at(u - 2 * h)) / (2 * h)
        a, b = u - h, u + h
        return (self.at(b) - self.at(a)) / (b - a)

    def width(self, u):
        return self.wid(u) * self.s

    def move(self, M, t, s=1.0):
        self.M, self.t, self.s = M @ self.M, M @ self.t + t, self.s * s


class Model:
    """Follows construction and transformation calls of a robust path."""

    def __init__(self, x, widths, offsets, keep=False):
        self.x = numpy.array(x, dtype=float)
        self.w, self.o = list(widths), list(offsets)
        self.n = len(self.w)
        self.pieces = [[] for _ in self.w]
        self.keep = keep  # widths do not scale

    def add(self, f, df, width, offset):
        for i in range(self.n):
            o = offset[i] if isinstance(offset, list) else offset
            if o is None:
                off = const(self.o[i])
            elif isinstance(o, tuple):
                g = value(o)
                off = g if isinstance(offset, list) else (lambda u, g=g, o=self.o[i]: g(u) + o)
            else:
                off = lin(self.o[i], o if isinstance(offset, list) else self.o[i] + o)
            w = width[i] if isinstance(width, list) else width
            wid = const(self.w[i]) if w is None else value(w) if isinstance(w, tuple) else lin(self.w[i], w)
            self.pieces[i].append(Piece(f, df, off, wid))
            self.w[i], self.o[i] = wid(1), off(1)
        self.x = f(1)

    def line(self, q, width, offset):
        p, q = self.x, numpy.array(q, dtype=float)
        self.add(lambda u: p * (1 - u) + q * u, lambda u: q - p, width, offset)

    def arc(self, r, a0, a1, width, offset):
        c = self.x - r * numpy.array([math.cos(a0), math.sin(a0)])
        f, _ = strokes.arc(c, r, a0, a1)

        def df(u):
            a = a0 + (a1 - a0) * u
            return r * (a1 - a0) * numpy.array([-math.sin(a), math.cos(a)])

        self.add(f, df, width, offset)

    def bezier(self, pts, width, offset):
        f, df = strokes.bezier([self.x] + [numpy.array(p, dtype=float) for p in pts])
        self.add(f, df, width, offset)

    def move(self, M, t, s=1.0):
        t = numpy.array(t, dtype=float)
        self.x = M @ self.x + t
        for ps in self.pieces:
            for p in ps:
                p.move(M, t, 1.0 if self.keep else s)
        flip = -1 if numpy.linalg.det(M) < 0 else 1
        self.o = [o * s * flip for o in self.o]
        if not self.keep:
            self.w = [w * s for w in self.w]


def rotation(a):
    c, s = math.cos(a), math.sin(a)
    return numpy.array([[c, -s], [s, c]])


def argument(spec):
    """Plain data to the argument of a construction call."""
    if isinstance(spec, list):
        return [value(s) for s in spec]
    return value(spec)


def play(path, model, ops, ctx=None, query=None):
    """Run the operations on the path and the model."""
    from core import ensure

    for op in ops:
        k = op[0]
        m0, x0 = len(model.pieces[0]), model.x
        if k == "query":
            if query is not None:
                query(path, op)
            continue
        if ctx is not None:
            ctx.label(k)
        if k in ("translate", "rotate", "scale", "transform"):
            if k == "translate":
                r = path.translate(*op[1])
                model.move(numpy.eye(2), op[1])
            elif k == "rotate":
                c = numpy.array(op[2], dtype=float)
                r = path.rotate(op[1]) if op[2] == (0, 0) else path.rotate(op[1], op[2])
                M = rotation(op[1])
                model.move(M, c - M @ c)
            elif k == "scale":
                c = numpy.array(op[2], dtype=float)
                r = path.scale(op[1]) if op[2] == (0, 0) else path.scale(op[1], op[2])
                model.move(op[1] * numpy.eye(2), c * (1 - op[1]), op[1])
            else:
                _, tr, rot, mag, flip, arr = op
                r = path.transform(*[None if v is None else numpy.array(v, dtype=float) for v in (tr,)], rot, mag, flip, *([] if arr is None else [numpy.array(arr, dtype=float)]))
                s = 1 if mag is None else mag
                M, t = s * numpy.eye(2), numpy.zeros(2)
                if arr is not None:
                    t = t + arr
                if flip:
                    F = numpy.diag([1.0, -1.0])
                    M, t = F @ M, F @ t
                if rot is not None:
                    R = rotation(rot)
                    M, t = R @ M, R @ t
                if tr is not None:
                    t = t + tr
                model.move(M, t, s)
            ensure(r is path, "chaining of", k)
            continue
        width, offset = op[1:3]
        kw = {}
        if width is not None:
            kw["width"] = argument(width)
        if offset is not None:
            kw["offset"] = argument(offset)
        x = model.x
        if k == "segment":
            q, rel = op[3:]
            r = path.segment(q, relative=rel, **kw)
            model.line(x + q if rel else q, width, offset)
        elif k == "arc":
            rad, a0, da = op[3:]
            r = path.arc(rad, a0, a0 + da, **kw)
            model.arc(rad, a0, a0 + da, width, offset)
        elif k == "turn":
            rad, da = op[3:]
            if m0 == 0:
                continue
            g = path.grad(m0, 0, "-")
            a = math.atan2(g[0][1], g[0][0])
            if max(abs(math.remainder(math.atan2(v[1], v[0]) - a, 2 * math.pi)) for v in g) > 1.5:
                continue  # folded elements go backwards
            a += sum(math.remainder(math.atan2(v[1], v[0]) - a, 2 * math.pi) for v in g) / len(g)
            r = path.turn(rad, da, **kw)
            da = {"l": math.pi / 2, "r": -math.pi / 2, "ll": math.pi, "rr": -math.pi}.get(da, da)
            a -= math.copysign(math.pi / 2, da)
            model.arc(rad, a, a + da, width, offset)
        elif k == "bezier":
            pts, rel = op[3:]
            r = path.bezier(pts, relative=rel, **kw)
            model.bezier([x + p if rel else p for p in pts], width, offset)
        elif k == "parametric":
            co, deriv, rel = op[3:]
            f, df = strokes.poly(co)
            if rel:
                r = path.parametric(f, df if deriv else None, **kw)
            else:
                r = path.parametric(lambda u, x=x, f=f: x + f(u), df if deriv else None, relative=False, **kw)
            model.add(lambda u, x=x, f=f: x + f(u), df, width, offset)
            for ps in model.pieces:
                ps[-1].numeric = not deriv
        elif k == "smooth":
            pts, rel = op[3:]
            n = len(pts) + 1
            through = [tuple(x)] + [tuple(x + p) if rel else p for p in pts]
            if min(math.dist(p, q) for p, q in zip(through, through[1:])) < 1e-3:
                continue
            m = hobbymodel.model(through, [None] * n, 1, 1, [1] * n, [1] * n, False)
            if m is None:
                continue  # close to singular
            r = path.smooth(pts, relative=rel, **kw)
            for q in m:
                model.bezier([(c.real, c.imag) for c in q[1:]], width, offset)
        else:
            raise ValueError(k)
        ensure(r is path, "chaining of", k)
    return model
