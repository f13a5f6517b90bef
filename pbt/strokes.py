"""Independent sampling of path pieces, shared by the path properties."""
import math

import numpy
import oracle
from core import ensure

TAU = 2 * math.pi


def bezier(pts):
    """(function, derivative) of a Bezier curve from complex-free control points."""
    p = numpy.array(pts, dtype=float)
    n = len(p) - 1

    def casteljau(q, u):
        q = q.copy()
        while len(q) > 1:
            q = q[:-1] * (1 - u) + q[1:] * u
        return q[0]

    d = n * (p[1:] - p[:-1])
    return (lambda u: casteljau(p, u)), (lambda u: casteljau(d, u))


def poly(co):
    """(function, derivative) of the polynomial curve sum co[k]*u**k, k from 1."""
    c = numpy.array(co, dtype=float)

    def f(u):
        return sum(c[k] * u ** (k + 1) for k in range(len(c)))

    def df(u):
        return sum((k + 1) * c[k] * u ** k for k in range(len(c)))

    return f, df


class Piece:
    """Dense samples of a piece: points, unit right normals, curvature."""

    def __init__(self, f, df, m=60, cuts=()):
        us = numpy.array(sorted(set(numpy.linspace(0, 1, m + 1)) | set(cuts)))
        self.u = us
        self.p = numpy.array([f(u) for u in us], dtype=float)
        d = numpy.array([df(u) for u in us], dtype=float)
        self.speed = numpy.hypot(d[:, 0], d[:, 1])
        self.minspeed = float(self.speed.min())
        with numpy.errstate(all="ignore"):
            t = d / self.speed[:, None]
        self.t = t
        self.right = numpy.column_stack([t[:, 1], -t[:, 0]])
        step = numpy.diff(self.p, axis=0)
        self.length = float(numpy.hypot(step[:, 0], step[:, 1]).sum())
        turn = numpy.abs(numpy.diff(numpy.unwrap(numpy.arctan2(t[:, 1], t[:, 0]))))
        with numpy.errstate(all="ignore"):
            k = turn / numpy.hypot(step[:, 0], step[:, 1])
        self.kmax = float(k.max()) if len(k) else 0.0
        # sagitta of the chords of these samples
        self.fine = float((turn * numpy.hypot(step[:, 0], step[:, 1])).max() / 8) if len(k) else 0.0

    def band(self, offset, half):
        """(left border, right border, no local fold): offset to the right and
        half width, constants or arrays over the samples."""
        offset = numpy.broadcast_to(numpy.asarray(offset, dtype=float), self.u.shape)
        half = numpy.broadcast_to(numpy.asarray(half, dtype=float), self.u.shape)
        left = self.p + self.right * (offset - half)[:, None]
        right = self.p + self.right * (offset + half)[:, None]
        # both borders and the centre advance along the tangent everywhere
        ok = True
        for b in (left, right, self.p + self.right * offset[:, None]):
            s = numpy.diff(b, axis=0)
            ok &= bool(((s * (self.t[1:] + self.t[:-1])).sum(axis=1) > 0.05 * numpy.hypot(*numpy.diff(self.p, axis=0).T)).all())
        return left, right, ok

    @staticmethod
    def outline(left, right):
        p = numpy.concatenate([left, right[::-1]])
        return p


def arc(center, radius, a0, a1):
    def f(u):
        a = a0 + (a1 - a0) * u
        return numpy.array([center[0] + radius * math.cos(a), center[1] + radius * math.sin(a)])

    def df(u):
        a = a0 + (a1 - a0) * u
        s = 1 if a1 > a0 else -1
        return s * radius * abs(a1 - a0) * numpy.array([-math.sin(a), math.cos(a)])

    return f, df


def angle_error(a, b):
    return abs((a - b + math.pi) % TAU - math.pi)


NAMED = {"+x": 0.0, "-x": math.pi, "+y": math.pi / 2, "-y": -math.pi / 2}


def angle_of(direction):
    return NAMED[direction] if isinstance(direction, str) else float(direction)


def on_curve(new, start, f, tol, what, slack=1.6, samples=601):
    """New vertices lie on the curve in order and follow it within tolerance."""
    us = numpy.linspace(0, 1, samples)
    dense = numpy.array([f(u) for u in us])
    seg = numpy.vstack((start, new))
    scale = 1 + float(numpy.abs(dense).max())
    d = oracle.edge_distance([dense], seg, closed=False)
    # chords of the dense samples are off by their sagitta
    turn = numpy.diff(dense, 2, axis=0)
    sag = float(numpy.hypot(*turn.T).max()) / 4
    ensure(d.max() <= sag + 1e-9 * scale, what, "vertex off the curve by", d.max())
    d = oracle.edge_distance([seg], dense, closed=False)
    ensure(d.max() <= slack * tol + sag + 1e-9 * scale, what, "curve off the path by", d.max(), "tolerance", tol)
    length = [float(numpy.hypot(*numpy.diff(q, axis=0).T).sum()) for q in (seg, dense)]
    ensure(length[0] <= length[1] * 1.001 + 1e-6 * scale, what, "goes back and forth: length", length[0], "curve", length[1])
