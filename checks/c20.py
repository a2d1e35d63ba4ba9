"""C20 elementary operations on sets of points."""
from .common import *


def rotate(E):
    form, n, unit = E.cfg
    prep = E.load("prep")
    q = E.q
    if form == "int":
        pts = [[E.int("y%d" % i, -3000, 3000), E.int("x%d" % i, -3000, 3000)]
               for i in range(n)]
    else:
        pts = [[E.real("y%d" % i, -3000, 3000),
                E.real("x%d" % i, -3000, 3000)] for i in range(n)]
    a = E.real("angle", -400, 400) if unit == "deg" else \
        E.real("angle", -7, 7)
    r = a * E.pi / 180 if unit == "deg" else a
    c, s = E.cos(r), E.sin(r)
    given = E.arr(pts, "i8" if form == "int" else None) \
        if form != "list" else pts
    keep = E.snap(given)
    kw = {} if unit == "deg" and form != "int" else \
        {"degree_unit": unit == "deg"}
    out = prep.rotate_points(given, a, **kw)
    E.shape_is(out, (n, 2), "as many points")
    for i, (y, x) in enumerate(pts):
        E.eq(out[i][1], x * c - y * s, "rotated x")
        E.eq(out[i][0], x * s + y * c, "rotated y")
    E.unchanged(given, keep, "points untouched")
    back = prep.rotate_points(out, -a, **kw)
    for i, (y, x) in enumerate(pts):
        E.eq(back[i][0], y, "turning back")
        E.eq(back[i][1], x, "turning back")


def subset(E):
    form, n, m, alias = E.cfg
    prep = E.load("prep")
    # coordinates that are not short binary fractions in concrete runs
    def mk(k):
        return E.real(k, -9000, 9000) / E.q(7)
    pts = [[mk("y%d" % i), mk("x%d" % i)] for i in range(n)]
    sel = [list(pts[alias[k]]) if k < len(alias) else
           [mk("sy%d" % k), mk("sx%d" % k)] for k in range(m)]
    g = E.arr(pts) if form == "arr" else pts
    h = E.arr(sel) if form == "arr" else sel
    keep = E.snap(g), E.snap(h)
    out = prep.remove_subset_points(h, g)
    want = [p for p in pts
            if not E.Or(*[E.And(p[0] == t[0], p[1] == t[1]) for t in sel])]
    E.check(len(out) == len(want), "exactly the selected points are gone")
    if want:
        E.check(E.call(lambda: out[:, 0]).ok, "an array of points")
    for a, b in zip(out, want):
        E.check(E.And(a[0] == b[0], a[1] == b[1]), "others stay, in order")
    E.unchanged((g, h), keep, "inputs untouched")


def shift(E):
    form, lens = E.cfg
    proc = E.load("proc")
    xc, yc = E.real("xc", -5000, 5000), E.real("yc", -5000, 5000)
    pts = []
    for i, n in enumerate(lens):
        mk = E.int if form == "int" else E.real
        pts.append([[mk("y%d_%d" % (i, j), -3000, 3000),
                     mk("x%d_%d" % (i, j), -3000, 3000)] for j in range(n)])
    given = [E.arr(p, "i8" if form == "int" else None) for p in pts]
    keep = E.snap(given)
    out = proc.update_center(given, xc, yc)
    E.check(len(out) == len(lens), "as many lines")
    for ln, p in zip(out, pts):
        E.shape_is(ln, (len(p), 2), "as many dots")
        for a, (y, x) in zip(ln, p):
            E.eq(a[0], y + yc, "y shifted")
            E.eq(a[1], x + xc, "x shifted")
    E.unchanged(given, keep, "lines untouched")


HARNESSES = [
    H("rotate", rotate, quick=[("arr", 2, "deg"), ("arr", 3, "rad"),
                               ("list", 2, "deg"), ("int", 2, "rad"),
                               ("int", 1, "deg")],
      bounds="1-3 points, any angle"),
    H("subset", subset, quick=[("arr", 3, 1, ()), ("arr", 3, 2, (1,)),
                               ("list", 2, 2, ()), ("arr", 4, 2, (3, 0)),
                               ("list", 2, 1, (0,)), ("arr", 2, 2, (0, 1))],
      thorough=[("arr", 4, 2, ()), ("arr", 3, 3, ())],
      budget=90, bounds="2-4 points, 1-3 selected"),
    H("shift", shift, quick=[("real", (3, 2)), ("int", (2, 2, 1)),
                             ("real", ())],
      bounds="up to 3 lines of up to 3 dots"),
]
ASSUMPTIONS = ["real arithmetic stands for float rounding"]
