"""Independent stroke construction for flexible paths.

An element is the union of the bodies of its displaced segments, the corner
pieces on the outer side of each vertex and the end caps."""
import math

import numpy

SQ5 = math.sqrt(5)


def cross(a, b):
    return float(a[0] * b[1] - a[1] * b[0])


def unit(v):
    return v / math.hypot(v[0], v[1])


def left(v):
    return numpy.array([-v[1], v[0]])


def meet(a, u, b, v):
    """Intersection of the lines a + s u and b + t v as (point, s, t)."""
    c = cross(u, v)
    if c * c < 1e-12 * float(u @ u) * float(v @ v):
        return None
    s = cross(b - a, v) / c
    return a + s * u, s, cross(b - a, u) / c


def rho(a, b):
    """Velocity function of Hobby's splines."""
    r2 = math.sqrt(2)
    num = 2 + r2 * (math.sin(a) - math.sin(b) / 16) * (math.sin(b) - math.sin(a) / 16) * (math.cos(a) - math.cos(b))
    return num / (3 * (1 + 0.5 * (SQ5 - 1) * math.cos(a) + 0.5 * (3 - SQ5) * math.cos(b)))


def wrap(a):
    return (a + math.pi) % (2 * math.pi) - math.pi


def hobby2(p, q, d0, d1, m=80):
    """Samples of the smooth curve from p to q leaving along d0, arriving along d1."""
    c = q - p
    if not c.any():
        return numpy.array([p, q])
    t0, t1, tc = (math.atan2(v[1], v[0]) for v in (d0, d1, c))
    th, ph = wrap(t0 - tc), wrap(tc - t1)
    d = math.hypot(*c)
    a = p + d * rho(th, ph) * unit(d0)
    b = q - d * rho(ph, th) * unit(d1)
    u = numpy.linspace(0, 1, m + 1)[:, None]
    return p * (1 - u) ** 3 + 3 * a * u * (1 - u) ** 2 + 3 * b * u * u * (1 - u) + q * u ** 3


def arc(c, r, a0, a1):
    m = max(4, int(abs(a1 - a0) * 40))
    a = numpy.linspace(a0, a1, m + 1)
    return c + r * numpy.column_stack([numpy.cos(a), numpy.sin(a)])


def angle(v):
    return math.atan2(v[1], v[0])


def displaced(P, off):
    """Vertices of the displaced centre line (offset to the left), and whether
    it runs along the spine without folding."""
    n = len(P)
    d = P[1:] - P[:-1]
    u = [unit(v) for v in d]
    S = [P[j] + left(u[j]) * off[j] for j in range(n - 1)]
    E = [P[j + 1] + left(u[j]) * off[j + 1] for j in range(n - 1)]
    C = [S[0]]
    ok = True
    for j in range(n - 2):
        m = meet(S[j], E[j] - S[j], S[j + 1], E[j + 1] - S[j + 1])
        if m is None:
            q = (E[j] + S[j + 1]) / 2
            ok &= float(numpy.abs(E[j] - S[j + 1]).max()) < 1e-9
        else:
            q, s, t = m
            ok &= -0.9 < s - 1 < 20 and -20 < t < 0.9
        C.append(q)
    C.append(E[-1])
    for j in range(n - 1):
        ok &= float((C[j + 1] - C[j]) @ u[j]) > 1e-3 * float(d[j] @ u[j])
    return numpy.array(C), ok


class Stroke:
    """Pieces of one element; `exact` is the allowed area difference and
    `ok` tells whether the construction can be judged."""

    def __init__(self, P, off, wid, corner, end, R=None, tol=0.01):
        P = numpy.array(P, dtype=float)
        self.C, self.ok = displaced(P, off)
        self.pieces, self.exact = [], 0.0
        self.kinds = set()
        if not self.ok:
            return
        C, n = self.C, len(P)
        h = [w / 2 for w in wid]
        u = [unit(v) for v in C[1:] - C[:-1]]
        L = [float((C[j + 1] - C[j]) @ u[j]) for j in range(n - 1)]
        # reduction of segments at both ends by bends
        r0, r1 = [0.0] * (n - 1), [0.0] * (n - 1)
        bends = {}
        if corner == "circular bend":
            for j in range(n - 2):
                da = angle_between(u[j], u[j + 1])
                self.ok &= h[j] == h[j + 1] == h[j + 2]
                if cross(u[j], u[j + 1]) == 0:
                    continue
                r1[j] = r0[j + 1] = R * math.tan(abs(da) / 2)
                bends[j] = da
        # border lines: (start, finish) of both sides of each segment
        B = {s: [(C[j] + s * left(u[j]) * h[j], C[j + 1] + s * left(u[j]) * h[j + 1]) for j in range(n - 1)] for s in (-1, 1)}
        used = [[0.0, 0.0] for _ in range(n - 1)]  # border fractions cut by inner corners
        reach = [[0.0, 0.0] for _ in range(n - 1)]
        for j in range(n - 1):
            a, b = r0[j] / L[j], 1 - r1[j] / L[j]
            self.ok &= a < b
            if not self.ok:
                return
            q = []
            for s, (f0, f1) in ((-1, (a, b)), (1, (b, a))):
                x, y = B[s][j]
                q += [x + (y - x) * f0, x + (y - x) * f1]
            self.pieces.append(numpy.array(q))
        for j in range(n - 2):
            if abs(angle_between(u[j], u[j + 1])) > 1.8 and not h[j] == h[j + 1] == h[j + 2]:
                self.ok = False
            if j in bends:
                self.bend(C[j + 1], u[j], u[j + 1], bends[j], R, h[j + 1], r1[j], tol)
                continue
            for s in (-1, 1):
                p0, p1 = B[s][j][1], B[s][j + 1][0]
                v0, v1 = B[s][j][1] - B[s][j][0], B[s][j + 1][1] - B[s][j + 1][0]
                m = meet(p0, v0, p1, v1)
                if m is None:
                    self.ok &= float(v0 @ v1) > 0 and float(numpy.abs(p0 - p1).max()) < 1e-9
                    continue
                p, a, b = m
                # in lengths along the borders
                ka, kb = a * math.hypot(*v0), b * math.hypot(*v1)
                near = 1e-9 * (1 + h[j + 1])
                if ka <= near and kb >= -near:
                    # the ends of the borders must be covered by the other body
                    self.ok &= s * cross(v0, v1) > 0 or max(-ka, kb) < 1e-9
                    self.ok &= float((p0 - C[j + 1]) @ u[j + 1]) < 0.999 * L[j + 1] - r1[j + 1] and float((C[j + 1] - p1) @ u[j]) < 0.999 * L[j] - r0[j]
                    used[j][1] = max(used[j][1], -a)
                    used[j + 1][0] = max(used[j + 1][0], b)
                    # how far the bodies reach into each other
                    reach[j][1] = max(reach[j][1], float((C[j + 1] - p1) @ u[j]))
                    reach[j + 1][0] = max(reach[j + 1][0], float((p0 - C[j + 1]) @ u[j + 1]))
                    continue
                if not (ka > near and kb < -near):
                    # one border passes the corner on either side (tapers)
                    self.ok = False
                    continue
                if s * cross(v0, v1) > 0:
                    # tapers: the border turns the other way around
                    self.pieces.append(numpy.array([C[j + 1], p0, p, p1]))
                    self.ok &= not callable(corner) and corner != "natural"
                    continue
                self.corner(C[j + 1], p0, v0, p1, v1, p, ka, -kb, h[j + 1], corner, tol)
        for a, b in used:
            self.ok &= a + b < 0.999
        self.cap(C[0], -u[0], h[0], h[0] == h[1], B[1][0][0], B[1][0][0] - B[1][0][1], B[-1][0][0], B[-1][0][0] - B[-1][0][1], end, 0, min(L[0] * (1 - used[0][1]) - r1[0], L[0] - reach[0][1]), tol)
        self.cap(C[-1], u[-1], h[-1], h[-1] == h[-2], B[-1][-1][1], B[-1][-1][1] - B[-1][-1][0], B[1][-1][1], B[1][-1][1] - B[1][-1][0], end, 1, min(L[-1] * (1 - used[-1][0]) - r0[-1], L[-1] - reach[-1][0]), tol)

    def bend(self, c, u0, u1, da, R, h, t, tol):
        o = c - u0 * t + (left(u0) if da > 0 else -left(u0)) * R
        a0 = angle(c - u0 * t - o)
        self.kinds.add("bend")
        self.pieces.append(numpy.concatenate([arc(o, R + h, a0, a0 + da), arc(o, R - h, a0 + da, a0)]))
        self.exact += 2.3 * tol * (R + h + abs(R - h)) * abs(da)

    def corner(self, c, p0, v0, p1, v1, p, ka, kb, h, corner, tol):
        d0, d1 = unit(v0), unit(v1)
        if callable(corner):
            curve = corner(p0, v0, p1, v1, c, 2 * h)
            self.kinds.add("custom")
        elif corner == "miter" or corner == "natural" and ka <= h and kb <= h:
            curve = [p]
            self.kinds.add("miter")
        elif corner == "natural":
            curve = [p0 + min(h, ka) * d0, p1 - min(h, kb) * d1]
            self.kinds.add("natural")
        elif corner == "bevel":
            curve = []
            self.kinds.add("bevel")
        elif corner == "round":
            s = 1 if cross(v0, v1) < 0 else -1
            a0, a1 = angle(s * left(v0)), angle(s * left(v1))
            a1 = a0 + wrap(a1 - a0)
            curve = list(arc(c, h, a0, a1))
            self.exact += h * (1.4 * tol * abs(a1 - a0)) + math.hypot(*(curve[0] - p0)) * math.hypot(*v0) + math.hypot(*(curve[-1] - p1)) * math.hypot(*v1)
            self.kinds.add("round")
        elif corner == "smooth":
            curve = list(hobby2(p0, p1, v0, v1))
            self.exact += 1.6 * tol * (math.hypot(*(p - p0)) + math.hypot(*(p - p1)))
            self.kinds.add("smooth")
        elif corner == "circular bend":
            self.ok = False
            return
        else:
            raise ValueError(corner)
        self.pieces.append(numpy.array([c, p0] + list(curve) + [p1]))

    def cap(self, c, d, h, constant, p0, v0, p1, v1, end, which, room, tol):
        """d points out of the path; borders p0 (right, seen outwards) and p1."""
        if end == "flush":
            return
        if callable(end):
            # the path calls it with the right border of the path first at both ends
            if which == 0:
                curve = end(p1, v1, p0, -v0)
                curve = curve[::-1]
            else:
                curve = end(p0, v0, p1, -v1)
            self.pieces.append(numpy.array(list(curve) + [c]))
            # borders of tapered ends may cross beyond the end
            self.ok &= constant
            self.kinds.add("custom end")
        elif end == "smooth":
            self.pieces.append(hobby2(p0, p1, v0, -v1))
            self.exact += 1.6 * tol * 4 * h
            self.kinds.add("smooth end")
        elif end == "round":
            a = angle(d)
            self.pieces.append(arc(c, h, a - math.pi / 2, a + math.pi / 2))
            self.exact += 1.4 * tol * math.pi * h
            self.kinds.add("round end")
        else:
            e = h if end == "extended" else end[which]
            self.kinds.add("extended" if end == "extended" else "lengths")
            if e >= 0:
                w = left(d) * h
                self.pieces.append(numpy.array([c - w, c - w + e * d, c + w + e * d, c + w]))
            else:
                # cut the body of the end segment
                self.ok &= constant and -e < 0.9 * room
                q = self.pieces[self.first if which == 0 else self.last]
                if which == 0:
                    q[0] = q[0] - e * -d
                    q[3] = q[3] - e * -d
                else:
                    q[1] = q[1] + e * d
                    q[2] = q[2] + e * d

    first = 0

    @property
    def last(self):
        return len(self.C) - 2


def angle_between(u, v):
    return math.atan2(cross(u, v), float(u @ v))
