"""Shared Hypothesis strategies.  Every case is plain data (tuples, lists,
numbers, strings), so that its repr is the replay file."""
from hypothesis import strategies as st


def grid(lo=-50000, hi=50000, den=1000):
    """Numbers on a decimal grid (default 0.001)."""
    return st.integers(lo, hi).map(lambda k: k / den)


small = st.integers(-20, 20)


def point(c):
    return st.tuples(c, c)


coord = st.one_of(
    st.integers(-20, 20),
    grid(-20000, 20000),
    grid(),
    grid(-100000000, 100000000),  # off the default 0.001 grid and large
    st.integers(-9, 9).map(lambda k: k + 0.5),
    st.integers(-300000, 300000).map(lambda k: k / 7000.0),
)

layer = st.one_of(st.integers(0, 6), st.integers(0, 255))
layer_any = st.one_of(st.integers(0, 6), st.integers(0, 255), st.integers(0, 32767))

ascii_text = st.text(
    st.characters(min_codepoint=32, max_codepoint=126), min_size=1, max_size=12
)
name_chars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$?"
cell_name = st.one_of(
    st.text(name_chars, min_size=1, max_size=6),
    st.text(name_chars, min_size=1, max_size=33),
)

angle = st.one_of(
    st.sampled_from([0, 90, 180, 270, -90, 45, 30, 360]),
    st.integers(-360, 360),
    st.integers(-7200, 7200).map(lambda k: k / 10.0),
)
angle_opt = st.one_of(st.none(), angle)
mag = st.one_of(st.sampled_from([1, 2, 0.5, 3]), st.integers(1, 4000).map(lambda k: k / 1000.0))
mag_opt = st.one_of(st.none(), mag)

props = st.one_of(
    st.none(),
    st.none(),
    st.dictionaries(
        st.integers(1, 126),
        st.one_of(ascii_text, st.text(st.characters(min_codepoint=32, max_codepoint=126), min_size=1, max_size=130)),
        max_size=3,
    ).map(lambda d: sorted(d.items())),
)

anchors = st.sampled_from(["o", "n", "s", "e", "w", "nw", "ne", "sw", "se"])


# -- polygons ---------------------------------------------------------------


@st.composite
def star_polygon(draw, c=None, rmin=1, rmax=20, nmax=9, den=1):
    """A simple polygon: vertices sorted by angle around a centre, on a grid."""
    import math

    n = draw(st.integers(3, nmax))
    cx, cy = draw(st.tuples(st.integers(-10, 10), st.integers(-10, 10)))
    rs = draw(st.lists(st.integers(rmin * 8, rmax * 8), min_size=n, max_size=n))
    ph = draw(st.integers(0, 99))
    pts = []
    for i, r in enumerate(rs):
        t = 2 * math.pi * (i + ph / 100.0) / n
        pts.append((cx + round(r * math.cos(t)) / 8.0, cy + round(r * math.sin(t)) / 8.0))
    return pts


@st.composite
def rect_polygon(draw, size=12):
    x0, y0 = draw(st.tuples(st.integers(-size, size), st.integers(-size, size)))
    w, h = draw(st.tuples(st.integers(1, size), st.integers(1, size)))
    p = [(x0, y0), (x0 + w, y0), (x0 + w, y0 + h), (x0, y0 + h)]
    if draw(st.booleans()):
        p = p[::-1]
    return p


@st.composite
def ell_polygon(draw, size=12):
    """Rectilinear L or U shapes."""
    x0, y0 = draw(st.tuples(st.integers(-size, size), st.integers(-size, size)))
    a, b, c = (draw(st.integers(1, 6)) for _ in range(3))
    h, k = draw(st.integers(2, 8)), draw(st.integers(1, 8))
    if draw(st.booleans()):
        p = [(0, 0), (a + b, 0), (a + b, k), (a, k), (a, k + h), (0, k + h)]
    else:
        t = min(k, h - 1)
        p = [(0, 0), (a + b + c, 0), (a + b + c, h), (a + b, h), (a + b, t), (a, t), (a, h), (0, h)]
    if draw(st.booleans()):
        p = [(y, x) for x, y in p]
    return [(x0 + x, y0 + y) for x, y in p]


def free_polygon(c=small, nmax=7):
    """Any vertex list: may be self-intersecting, degenerate or repeated."""
    return st.lists(point(c), min_size=3, max_size=nmax)


polygon = st.one_of(rect_polygon(), ell_polygon(), star_polygon(), free_polygon())
simple_polygon = st.one_of(rect_polygon(), ell_polygon(), star_polygon())

any_polygon = st.one_of(polygon, free_polygon(coord, 10))


def polyline(c=small, nmin=2, nmax=6):
    """Point lists without consecutive repetitions."""

    def dedup(pts):
        out = [pts[0]]
        for p in pts[1:]:
            if p != out[-1]:
                out.append(p)
        return out

    return st.lists(point(c), min_size=nmin, max_size=nmax).map(dedup).filter(lambda p: len(p) >= nmin)
