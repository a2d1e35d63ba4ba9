"""C35 chessboards are turned into line patterns."""
from .common import *


def edges(E, v, h, w, cut):
    """mean of the absolute central differences, border replaced"""
    def at(i, j):
        return v[min(max(i, 0), h - 1)][min(max(j, 0), w - 1)]

    def e(i, j):
        i, j = min(max(i, cut), h - 1 - cut), min(max(j, cut), w - 1 - cut)
        dy = at(i + 1, j) - at(i - 1, j)
        dx = at(i, j + 1) - at(i, j - 1)
        dy = dy / 2 if 0 < i < h - 1 else dy
        dx = dx / 2 if 0 < j < w - 1 else dx
        return (E.abs(dy) + E.abs(dx)) / 2
    return [[e(i, j) for j in range(w)] for i in range(h)]


def chess(E):
    h, w, free, bgr, form, smooth = E.cfg
    line = E.load("line")
    v = [[E.q((3 * i + 5 * j + i * j) % 7) for j in range(w)]
         for i in range(h)]
    for n, (i, j, lo, hi) in enumerate(free):
        v[i][j] = E.real("v%d" % n, lo, hi) if form != "u1" else \
            E.int("v%d" % n, lo, hi)
    m = E.arr(v, form)
    kw = {} if bgr is None else {"bgr": bgr}
    got = []
    if smooth is not None:
        # a filter whose output is the pattern, its input another image
        out = m
        m = E.arr([[E.q((i * i + 2 * j) % 5) for j in range(w)]
                   for i in range(h)], form)

        def blur(mat, sigma, *a, **k):
            got.append((mat, sigma, a, k))
            return out
        if E.sym:
            E.state["ndimage"] = {"gaussian_filter": blur}
        else:
            import scipy.ndimage as nd
            E.patch(nd, "gaussian_filter", blur)
        if smooth != "default":
            kw["sigma"] = smooth
    else:
        kw["smooth"] = False
    keep = E.snap(m)
    e = edges(E, v, h, w, 2 if smooth is None else 4)
    if bgr in (None, "bright"):
        top = e[0][0]
        for r in e:
            for x in r:
                top = E.max(top, x)
        e = [[top - x for x in r] for r in e]
    mean = sum(sum(E.abs(x) for x in r) for r in e) / E.q(h * w)
    E.assume(mean > E.q("1e-3"))
    out = line.convert_chessboard_to_linepattern(m, **kw)
    E.shape_is(out, (h, w), "shape")
    for i in range(h):
        for j in range(w):
            E.eq(out[i, j] * mean, e[i][j], "edges of the squares")
    E.unchanged(m, keep, "image untouched")
    if smooth is not None:
        E.check(len(got) == 1, "smoothed once")
        mat, sigma, a, k = got[0]
        E.shape_is(mat, (h, w), "the image is smoothed")
        for i in range(h):
            for j in range(w):
                E.eq(mat[i, j], m[i, j], "the image is smoothed")
        E.eq(sigma, 3 if smooth == "default" else smooth, "smoothing")


HARNESSES = [
    H("chess", chess, quick=[
        (6, 7, ((2, 3, 9, 30),), None, "f8", None),
        (6, 6, ((2, 2, 9, 20),), None, "f8", None),
        (7, 6, ((3, 3, -20, 20),), "dark", "f4", None),
        (6, 6, ((3, 2, 0, 255),), "bright", "u1", None),
        (6, 5, ((2, 2, 0, 255),), "dark", "u1", None),
        (5, 6, ((0, 1, -20, 20), (2, 3, -20, 20)), "dark", "f8", None),
        (6, 6, ((5, 5, -20, 20), (3, 2, -20, 20)), "bright", "f8", None),
        (10, 11, ((4, 5, -20, 20), (3, 1, -20, 20)), "dark", "f8", "default"),
        (11, 10, ((5, 4, -20, 20),), "dark", "f4", 5),
        (9, 10, ((4, 3, 9, 30),), "bright", "f8", 2)],
      bounds="images up to 11 x 11 pixels, one or two of any value"),
]
ASSUMPTIONS = ["the Gaussian filter is a stand-in with any output"]
