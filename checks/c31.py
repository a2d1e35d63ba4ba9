"""C31 generated calibration patterns."""
from .common import *


def _any(E, cs):
    cs = list(cs)
    if not cs:
        return False
    return cs[0] if len(cs) == 1 else E.Or(*cs)


def _margin(E, form):
    if form == "one":
        m = E.int("margin", 0, 3000)
        return m, m, m
    mv, mh = E.int("margin_ver", 0, 3000), E.int("margin_hor", 0, 3000)
    return ((mv, mh) if form == "tuple" else [mv, mh]), mv, mh


def _steps(E, lo, hi, st, most):
    """lo, lo + st, ... below hi; at most that many"""
    if not E.sym:
        E.assume(hi - lo <= 60 * st)
        most = 60
    E.assume(hi - lo <= most * st)
    return [lo + k * st for k in range(most) if lo + k * st < hi]


def circle(E):
    util = E.load("util")
    w = E.big_int("W", 1, 3000)
    r = E.real("ratio", 0, 3)
    if E.cfg == "shape":
        return E.shape_is(util.make_circle_mask(w, r), (w, w), "shape")
    i, j = E.pixel(w, w)
    c = E.floor(w / E.q(2))
    d = (i - c) * (i - c) + (j - c) * (j - c) - r * c * r * c
    E.assume(E.Or(E.abs(d) > E.q("1e-3"), r == 1))
    m = util.make_circle_mask(w, r)
    E.eq(E.at(m, i, j), E.ite(d <= 0, 1, 0), "a centred disk")


def dots(E):
    form, nv, nh, what = E.cfg
    util = E.load("util")
    h, w = E.big_int("H", 8, 1200), E.big_int("W", 8, 1200)
    dist = E.int("dot_distance", 1, 500)
    size = E.int("dot_size", -3, 500)
    marg, mv, mh = _margin(E, form)
    s = E.clip(size, 1, E.floor(E.min(h, w) / E.q(8)))
    if what == "refused":
        E.assume(dist < s)
        r = E.call(util.make_dot_pattern, height=h, width=w,
                   dot_distance=dist, dot_size=size, margin=marg)
        E.check(r.is_a(ValueError), "dots larger than their distance are refused")
        return
    E.assume(s <= dist)
    half = E.floor(s / E.q(2)) + 1
    rows = _steps(E, mv + half, h - mv - half, dist, nv)
    cols = _steps(E, mh + half, w - mh - half, dist, nh)
    out = util.make_dot_pattern(height=h, width=w, dot_distance=dist,
                                dot_size=size, margin=marg)
    if what == "shape":
        return E.shape_is(out, (h, w), "shape")
    for i, j in E.pixels(h, w, 1200):
        rad = half - 1
        on = _any(E, [E.And((i - p) * (i - p) + (j - q) * (j - q) <= rad * rad,
                            i - p < s - rad, j - q < s - rad)
                      for p in rows for q in cols])
        E.eq(E.at(out, i, j), E.ite(on, 0, 1) if rows and cols else 1,
             "black disks on the grid")


def lines(E):
    form, nv, nh, what = E.cfg
    util = E.load("util")
    h, w = E.big_int("H", 8, 5000), E.big_int("W", 8, 5000)
    dist = E.int("line_distance", 1, 2000)
    size = E.int("line_size", -3, 2000)
    marg, mv, mh = _margin(E, form)
    s = E.clip(size, 1, E.floor(E.min(h, w) / E.q(8)))
    if what == "thin":
        E.assume(s <= dist)
    rows = _steps(E, mv, h - mv - s, dist, nv)
    cols = _steps(E, mh, w - mh - s, dist, nh)
    E.assume(bool(rows) and bool(cols))
    out = util.make_line_pattern(height=h, width=w, line_distance=dist,
                                 line_size=size, margin=marg)
    if what == "shape":
        return E.shape_is(out, (h, w), "shape")
    for i, j in E.pixels(h, w, 5000):
        inside = E.And(i >= rows[0], i < rows[-1] + s, j >= cols[0],
                       j < cols[-1] + s)
        on = _any(E, [E.And(i >= p, i < p + s) for p in rows] +
                  [E.And(j >= p, j < p + s) for p in cols])
        E.eq(E.at(out, i, j), E.ite(E.And(inside, on), 0, 1),
             "black lines on the grid, ending at the outermost lines")


def board(E):
    nv, nh, what = E.cfg
    util = E.load("util")
    h, w = E.big_int("H", 4, 5000), E.big_int("W", 4, 5000)
    size = E.int("size", 1, 2000)
    m = E.int("margin", 0, 2000)
    g = E.real("grey", 0, 1)
    rows = _steps(E, size + m, h - m - size, size, nv)
    cols = _steps(E, size + m, w - m - size, size, nh)
    out = util.make_chessboard(height=h, width=w, size=size, margin=m,
                               margin_grayscale=g)
    if what == "shape":
        return E.shape_is(out, (h, w), "shape")
    for i, j in E.pixels(h, w, 5000):
        want = g
        for a, p in enumerate(rows):
            for b, q in enumerate(cols):
                want = E.ite(E.And(i >= p, i < p + size, j >= q, j < q + size),
                             1 - (a + b) % 2, want)
        E.eq(E.at(out, i, j), want, "alternating squares on the grey margin",
             tol=1e-6)


HARNESSES = [
    H("circle", circle, quick=["shape", "at"],
      bounds="masks of 1-3000 pixels, any ratio up to 3"),
    H("dots", dots, quick=[("one", 3, 3, "at"), ("one", 2, 2, "at"), ("tuple", 2, 1, "at"),
                           ("list", 1, 2, "at"), ("one", 1, 1, "shape"),
                           ("tuple", 1, 1, "refused")],
      thorough=[("one", 4, 4, "at"), ("tuple", 3, 4, "at")],
      bounds="images up to 1200 pixels wide, up to 3 x 3 dots (thorough 4 x "
             "4), any size, distance and margin"),
    H("lines", lines, quick=[("one", 2, 2, "at"), ("tuple", 3, 1, "at"),
                             ("list", 1, 3, "at"), ("one", 2, 6, "thin"),
                             ("tuple", 6, 2, "thin"), ("one", 2, 2, "shape")],
      thorough=[("one", 4, 4, "at"), ("tuple", 3, 4, "at")],
      bounds="images up to 5000 pixels wide, up to 6 lines in a direction, "
             "any size, distance and margin"),
    H("board", board, quick=[(3, 3, "at"), (2, 6, "at"), (6, 2, "at"), (2, 2, "shape")],
      thorough=[(4, 4, "at"), (3, 8, "at")],
      bounds="images up to 5000 pixels wide, up to 6 squares in a "
             "direction, any size and margin"),
]
