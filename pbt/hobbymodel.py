"""Control points of smooth curves from the published equations."""
import math

import numpy


def wrap(a):
    return math.pi - (math.pi - a) % (2 * math.pi)


def model(pts, angles, cs, ce, t_in, t_out, cycle, turn=wrap):
    """Control points by one dense system over all free points, or None."""
    n = len(pts)
    z = [complex(*p) for p in pts]
    m = n if cycle else n - 1
    nxt = lambda i: (i + 1) % n
    v = [z[nxt(i)] - z[i] for i in range(m)]
    d = [abs(c) for c in v]
    dl = [math.atan2(c.imag, c.real) for c in v]
    a = numpy.zeros((2 * m, 2 * m))
    b = numpy.zeros(2 * m)
    th = lambda i: i
    ph = lambda i: m + i  # arrival angle of segment i
    row = 0
    free = all(x is None for x in angles)
    for k in range(n):
        out = k if k < m else None
        arr = (k - 1) % n if cycle or k > 0 else None
        if angles[k] is not None:
            if out is not None:
                w = turn(angles[k] - dl[out])
                a[row, th(out)], b[row] = 1, w
                row += 1
                if abs(abs(wrap(w)) - math.pi) < 1e-4:
                    return None
            if arr is not None:
                w = turn(dl[arr] - angles[k])
                a[row, ph(arr)], b[row] = 1, w
                row += 1
                if abs(abs(wrap(w)) - math.pi) < 1e-4:
                    return None
            continue

        if out is not None and arr is not None:
            psi = wrap(dl[out] - dl[arr])
            if abs(abs(psi) - math.pi) < 1e-4:
                return None
            a[row, th(out)] = a[row, ph(arr)] = 1
            b[row] = -psi
            row += 1
            j, l = (arr, nxt(k))  # points before and after
            into = t_in[k] ** 2 / (d[arr] * t_out[j])
            leave = t_out[k] ** 2 / (d[out] * t_in[l])
            a[row, ph(arr)] += into * (3 * t_out[j] - 1)
            a[row, th(arr)] -= into
            a[row, th(out)] -= leave * (3 * t_in[l] - 1)
            a[row, ph(out)] += leave
            row += 1
        elif out is not None:
            if free and m == 1:
                a[row, th(0)] = 1
                row += 1
                continue
            # curvature leaving = curl * curvature arriving at the neighbour
            o, i = t_out[0], t_in[1]
            a[row, th(0)] += o ** 2 / i * (3 * i - 1) + cs * i ** 2 / o
            a[row, ph(0)] += -(o ** 2) / i - cs * i ** 2 / o * (3 * o - 1)
            row += 1
        else:
            if free and m == 1:
                a[row, ph(0)] = 1
                row += 1
                continue
            o, i = t_out[n - 2], t_in[n - 1]
            a[row, ph(m - 1)] += i ** 2 / o * (3 * o - 1) + ce * o ** 2 / i
            a[row, th(m - 1)] += -(i ** 2) / o - ce * o ** 2 / i * (3 * i - 1)
            row += 1
    norm = numpy.abs(a).max(axis=1)
    if (norm == 0).any():
        return None
    a, b = a / norm[:, None], b / norm
    if numpy.linalg.cond(a) > 1e6:
        return None
    x = numpy.linalg.solve(a, b)
    out = []
    for i in range(m):
        t, p = x[i], x[m + i]

        def velocity(t, p):
            al = math.sqrt(2) * (math.sin(t) - math.sin(p) / 16) * (math.sin(p) - math.sin(t) / 16) * (math.cos(t) - math.cos(p))
            den = 1 + (math.sqrt(5) - 1) / 2 * math.cos(t) + (3 - math.sqrt(5)) / 2 * math.cos(p)
            return (2 + al) / den if abs(den) > 1e-3 else None

        r, s = velocity(t, p), velocity(p, t)
        if r is None or s is None:
            return None
        c0 = z[i] + r * d[i] / (3 * t_out[i]) * complex(math.cos(dl[i] + t), math.sin(dl[i] + t))
        c1 = z[nxt(i)] - s * d[i] / (3 * t_in[nxt(i)]) * complex(math.cos(dl[i] - p), math.sin(dl[i] - p))
        out.append((z[i], c0, c1, z[nxt(i)]))
    if max(abs(c - p[0]) + abs(c - p[3]) for p in out for c in p[1:3]) > 1e3 * max(d):
        return None
    return out
