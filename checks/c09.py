"""C09 perspective coefficients are applied to lines and images alike."""
from .common import *


def persp(c, x, y):
    den = c[6] * x + c[7] * y + 1
    return ((c[0] * x + c[1] * y + c[2]) / den,
            (c[3] * x + c[4] * y + c[5]) / den)


def cf(E, big=1):
    c = [E.real("c%d" % k, -2, 2) for k in (1, 2)]
    c.append(E.real("c3", -200, 200))
    c += [E.real("c%d" % k, -2, 2) for k in (4, 5)]
    c.append(E.real("c6", -200, 200))
    c += [E.real("c7", -big, big), E.real("c8", -big, big)]
    return c


def front(E, c, h, w):
    """no pixel on the horizon"""
    for y in (0, h - 1):
        for x in (0, w - 1):
            E.assume(c[6] * x + c[7] * y + 1 > E.q("0.01"))


def lines(E):
    lens, dtype, form = E.cfg
    post = E.load("post")
    c = cf(E)
    mk = E.real if dtype == "f" else E.int
    ls, pts = [], []
    for a, n in enumerate(lens):
        p = [[mk("y%d_%d" % (a, k), -500, 3000),
              mk("x%d_%d" % (a, k), -500, 3000)] for k in range(n)]
        for y, x in p:
            den = c[6] * x + c[7] * y + 1
            E.assume(E.Or(den > E.q("0.01"), den < -E.q("0.01")))
        pts.append(p)
        ls.append(E.arr(p) if form == "array" else [tuple(q) for q in p])
    cc = E.arr(c) if form == "array" else c
    keep, kc = E.snap(ls), E.snap(cc)
    out = post.correct_perspective_line(ls, cc)
    E.check(len(out) == len(ls), "one output line per line")
    for p, o in zip(pts, out):
        E.shape_is(o, (len(p), 2), "one output point per point")
        for k, (y, x) in enumerate(p):
            xn, yn = persp(c, x, y)
            E.eq(o[k, 0], yn, "mapped y")
            E.eq(o[k, 1], xn, "mapped x")
    E.unchanged(ls, keep, "lines untouched")
    E.unchanged(cc, kc, "coefficients untouched")


def image(E):
    big, given, dtype = E.cfg
    post = E.load("post")
    if big:
        h, w = sizes(E)
        i, j = E.pixel(h, w)
        at = [(i, j)]
    else:
        h, w = 2, 3
        at = [(a, b) for a in range(h) for b in range(w)]
    m = E.image("m", (h, w), dtype)
    c = cf(E)
    for i, j in at:
        den = c[6] * j + c[7] * i + 1
        E.assume(E.Or(den > E.q("0.01"), den < -E.q("0.01")))
    if big:
        front(E, c, h, w)
    order = E.choice("order", [1, 0, 3])
    mode = E.choice("mode", ["reflect", "nearest", "constant"])
    keep, kc = E.snap(m), E.snap(c)
    kw = {}
    if given:
        pos = [persp(c, j, i) for i, j in at]
        kw["map_index"] = (
            E.arr([[E.clip(y, 0, h - 1)] for x, y in pos], "f4"),
            E.arr([[E.clip(x, 0, w - 1)] for x, y in pos], "f4"))
    # with a map the coefficients are only counted
    out = post.correct_perspective_image(m, [5] * 8 if given else c,
                                         order=order, mode=mode, **kw)
    E.shape_is(out, (h, w), "same shape")
    for i, j in at:
        x, y = persp(c, j, i)
        E.sample_eq(E.at(out, i, j), m, E.clip(y, 0, h - 1),
                    E.clip(x, 0, w - 1), order, mode, "pixel")
    E.unchanged(m, keep, "image untouched")
    E.unchanged(c, kc, "coefficients untouched")


def default(E):
    post = E.load("post")
    h, w = sizes(E)
    i, j = E.pixel(h, w)
    m = E.image("m", (h, w), "f4")
    c = cf(E)
    front(E, c, h, w)
    out = post.correct_perspective_image(m, c)
    x, y = persp(c, j, i)
    E.sample_eq(E.at(out, i, j), m, E.clip(y, 0, h - 1),
                E.clip(x, 0, w - 1), 1, "reflect", "default pixel")


def count(E):
    n, = E.cfg
    post = E.load("post")
    c = [E.real("c%d" % k, -1, 1) for k in range(n)]
    y, x = E.real("y", 0, 10), E.real("x", 0, 10)
    r = E.call(post.correct_perspective_line, [E.arr([[y, x]])], c)
    E.check(r.is_a(ValueError), "eight coefficients are required (lines)")
    m = E.image("m", (2, 3), "f4")
    r = E.call(post.correct_perspective_image, m, c)
    E.check(r.is_a(ValueError), "eight coefficients are required (image)")


HARNESSES = [
    H("lines", lines,
      quick=[((2, 1), "f", "array"), ((1, 2, 1), "f", "list"),
             ((2,), "i", "array"), ((10,), "f", "array")],
      thorough=[(s, t, f) for s in ((1,), (2, 1), (1, 2, 1), (16,))
                for t in "fi" for f in ("array", "list")],
      bounds="up to 4 lines / 16 points, coefficients in [-2,2] "
             "([-200,200] for the shifts), denominators away from 0"),
    H("image", image,
      quick=[(True, False, "f4"), (False, False, "u1"), (False, True, "f4")],
      thorough=[(b, g, t) for b, g in ((True, False), (False, True),
                                       (False, False))
                for t in ("f4", "u2")], budget=60,
      bounds="symbolic sizes up to 6000x6000 or 70000x40, one symbolic "
             "pixel; every pixel of 2x3 images"),
    H("default", default, quick=[None], bounds="as image"),
    H("count", count, quick=[(0,), (7,), (9,)],
      thorough=[(n,) for n in (0, 1, 4, 6, 7, 9, 12)],
      bounds="wrong numbers of coefficients"),
]
ASSUMPTIONS = ["real arithmetic stands for float rounding"]
