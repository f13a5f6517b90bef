"""Independent geometric oracles (plain numpy, no gdspy)."""
import math

import numpy as np


def arr(p):
    return np.asarray(p, dtype=float).reshape(-1, 2)


def signed_area(p):
    p = arr(p)
    if len(p) < 3:
        return 0.0
    q = p - p[0]
    x, y = q[:, 0], q[:, 1]
    return 0.5 * float(np.dot(x, np.roll(y, -1)) - np.dot(np.roll(x, -1), y))


def area(p):
    return abs(signed_area(p))


def perimeter(p):
    p = arr(p)
    d = np.roll(p, -1, axis=0) - p
    return float(np.hypot(d[:, 0], d[:, 1]).sum())


def total_perimeter(polys):
    return sum(perimeter(p) for p in polys)


def bbox(polys):
    pts = [arr(p) for p in polys if len(p)]
    if not pts:
        return None
    a = np.concatenate(pts)
    return a.min(axis=0), a.max(axis=0)


def _edges(sets, oriented):
    """Edge rows x0,y0,x1,y1 with x0<x1, direction sign and set number."""
    rows = []
    for k, polys in enumerate(sets):
        for p in polys:
            p = arr(p)
            if len(p) < 3:
                continue
            if oriented and signed_area(p) < 0:
                p = p[::-1]
            q = np.roll(p, -1, axis=0)
            e = np.concatenate([p, q], axis=1)
            rows.append(np.column_stack([e, np.full(len(e), k)]))
    if not rows:
        return np.zeros((0, 4)), np.zeros(0), np.zeros(0, int)
    e = np.concatenate(rows)
    e = e[e[:, 0] != e[:, 2]]  # vertical edges bound no slab
    d = np.where(e[:, 0] < e[:, 2], 1, -1)
    sw = d < 0
    xy = e[:, :4].copy()
    xy[sw] = e[sw][:, [2, 3, 0, 1]]
    return xy, d, e[:, 4].astype(int)


def measure(sets, formula, oriented=True):
    """Exact (double precision) area of the region where `formula` holds.

    sets: list of polygon lists; formula: function of an int array of winding
    numbers with shape (..., len(sets)) giving a boolean array.  With
    `oriented`, each polygon is first turned counter-clockwise, so that
    overlapping polygons of a set never cancel.
    """
    xy, d, s = _edges(sets, oriented)
    n = len(xy)
    if n == 0:
        return 0.0
    x0, y0, x1, y1 = xy.T
    dx = x1 - x0
    dy = y1 - y0
    # all pairwise proper crossings
    I, J = np.triu_indices(n, 1)
    if len(I):
        ov = (x0[I] < x1[J]) & (x0[J] < x1[I])
        lo = np.minimum(y0, y1)
        hi = np.maximum(y0, y1)
        ov &= (lo[I] <= hi[J]) & (lo[J] <= hi[I])
        I, J = I[ov], J[ov]
    xs = [x0, x1]
    if len(I):
        den = dx[I] * dy[J] - dx[J] * dy[I]
        ok = den != 0
        I, J, den = I[ok], J[ok], den[ok]
        u = ((x0[J] - x0[I]) * dy[J] - (y0[J] - y0[I]) * dx[J]) / den
        xc = x0[I] + u * dx[I]
        ok = (xc > np.maximum(x0[I], x0[J])) & (xc < np.minimum(x1[I], x1[J]))
        xs.append(xc[ok])
    X = np.unique(np.concatenate(xs))
    if len(X) < 2:
        return 0.0
    total = 0.0
    nset = len(sets)
    slope = dy / dx
    step = max(1, int(2_000_000 // max(n * nset, 1)))
    for c in range(0, len(X) - 1, step):
        a = X[c : min(c + step, len(X) - 1)]
        b = X[c + 1 : c + 1 + len(a)]
        mid = 0.5 * (a + b)
        act = (x0[None, :] <= a[:, None]) & (x1[None, :] >= b[:, None])
        Y = np.where(act, y0[None, :] + (mid[:, None] - x0[None, :]) * slope[None, :], np.inf)
        order = np.argsort(Y, axis=1, kind="stable")
        Ys = np.take_along_axis(Y, order, axis=1)
        fin = np.isfinite(Ys)
        W = np.zeros(Ys.shape + (nset,), dtype=np.int64)
        dd = d[order] * fin
        ss = s[order]
        for k in range(nset):
            W[..., k] = np.cumsum(np.where(ss == k, dd, 0), axis=1)
        inside = formula(W)[:, :-1]
        top = np.where(fin[:, 1:], Ys[:, 1:], 0.0)
        bot = np.where(fin[:, 1:], Ys[:, :-1], 0.0)
        gap = (top - bot) * inside
        total += float((gap.sum(axis=1) * (b - a)).sum())
    return total


def nz(w, k):
    return w[..., k] != 0


def xor_area(a, b):
    """Area of the symmetric difference of the unions of two polygon lists."""
    return measure([a, b], lambda w: nz(w, 0) != nz(w, 1))


def union_area(a):
    return measure([a], lambda w: nz(w, 0))


def overlap_area(a):
    """Area covered more than once by the (simple) polygons of the list."""
    return measure([a], lambda w: w[..., 0] > 1)


def same_region(a, b, tol_len, what="", extra=0.0):
    """Assert two polygon lists cover the same region up to a boundary band of
    width tol_len."""
    x = xor_area(a, b)
    lim = tol_len * (total_perimeter(a) + total_perimeter(b)) + 4 * tol_len ** 2 + extra
    if x > lim:
        raise AssertionError(
            "%s regions differ: xor area %.9g > %.3g (areas %.9g, %.9g)"
            % (what, x, lim, union_area(a), union_area(b))
        )
    return x


def winding(poly, pts):
    """Winding number of each point with respect to the polygon."""
    p = arr(poly)
    pts = arr(pts)
    q = np.roll(p, -1, axis=0)
    px, py = pts[:, 0][:, None], pts[:, 1][:, None]
    ax, ay, bx, by = p[:, 0], p[:, 1], q[:, 0], q[:, 1]
    up = (ay <= py) & (by > py)
    dn = (ay > py) & (by <= py)
    cross = (bx - ax) * (py - ay) - (px - ax) * (by - ay)
    return (up & (cross > 0)).sum(axis=1) - (dn & (cross < 0)).sum(axis=1)


def edge_distance(polys, pts, closed=True):
    """Distance of each point to the nearest polygon edge."""
    pts = arr(pts)
    best = np.full(len(pts), np.inf)
    for p in polys:
        p = arr(p)
        if len(p) == 0:
            continue
        q = np.roll(p, -1, axis=0)
        if not closed:
            p, q = p[:-1], q[:-1]
        d = q - p
        l2 = (d ** 2).sum(axis=1)
        l2 = np.where(l2 == 0, 1, l2)
        t = ((pts[:, None, :] - p[None]) * d[None]).sum(axis=2) / l2
        t = np.clip(t, 0, 1)
        c = p[None] + t[..., None] * d[None]
        dist = np.sqrt(((pts[:, None, :] - c) ** 2).sum(axis=2)).min(axis=1)
        best = np.minimum(best, dist)
    return best


def in_union(polys, pts):
    r = np.zeros(len(arr(pts)), bool)
    for p in polys:
        if len(p) >= 3:
            r |= winding(p, pts) != 0
    return r


def rot(pts, ang, c=(0, 0)):
    pts = arr(pts)
    ca, sa = math.cos(ang), math.sin(ang)
    q = pts - np.asarray(c)
    return np.column_stack([q[:, 0] * ca - q[:, 1] * sa, q[:, 0] * sa + q[:, 1] * ca]) + np.asarray(c)


# cos/sin that are exact at multiples of 90 degrees are not assumed anywhere:
# comparisons carry a tolerance.


def place(pts, origin=(0, 0), rotation=None, magnification=None, x_reflection=False):
    """The GDSII transformation: reflect about x, magnify, rotate, translate."""
    p = arr(pts).copy()
    if x_reflection:
        p[:, 1] = -p[:, 1]
    if magnification is not None:
        p = p * magnification
    if rotation is not None:
        p = rot(p, math.radians(rotation))
    return p + np.asarray(origin, dtype=float)


def close(a, b, tol):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    return a.shape == b.shape and (a.size == 0 or float(np.max(np.abs(a - b))) <= tol)


def same_multiset(A, B, tol):
    """Two lists of vertex arrays agree as multisets (vertex by vertex)."""
    if len(A) != len(B):
        return False
    B = [arr(b) for b in B]
    used = [False] * len(B)
    for a in A:
        a = arr(a)
        for j, b in enumerate(B):
            if not used[j] and a.shape == b.shape and float(np.abs(a - b).max(initial=0)) <= tol:
                used[j] = True
                break
        else:
            return False
    return True
