"""C34 slope of the grid from the strongest projection."""
import math
import numpy as np
from .common import *
from symx.terms import Unsupported


def other_way(E, what):
    """the code does not use the function the harness stands in for"""
    if E.sym:
        raise Unsupported(what)
    E.assume(False)


def dots(E):
    """a straight tilted grid of dots: the slope is exact"""
    ver, n, pitch, lo, hi, sparse = E.cfg
    prep = E.load("prep")
    k = E.int("degree", lo, hi)
    k = next(v for v in range(lo, hi + 1) if k == v)
    a, b = [math.tan(math.radians(k + d)) for d in (-0.4, 0.4)]
    s = E.real("slope", E.q(a), E.q(b))
    # a mask with as many blobs as there are dots
    m = np.zeros((8 * n, 8 * n), int)
    for i in range(n):
        for j in range(n):
            m[8 * i + 4, 8 * j + 4] = 1
    y0, x0 = E.real("y0", 20, 60), E.real("x0", 20, 60)
    cents = []
    for i in range(n):
        for j in range(n):
            u, v = pitch * (j - n // 2), pitch * (i - n // 2)
            # along the line: u; across: v
            if sparse and i == n // 2 and j != n // 2:
                v = v + 100 * (j - n // 2)
            cents.append([y0 + v + s * u, x0 + u] if not ver else
                         [y0 + u, x0 + v + s * u])
    seen = {}

    def com(mat, labels=None, index=None):
        seen["com"] = len(list(index)) if index is not None else -1
        return E.arr(cents)

    def radon(img, theta=None, circle=True, **kw):
        th = [float(t) for t in theta]
        seen["radon"] = True
        best = (90 - k) if not ver else k
        p = np.ones((4, len(th)))
        for c, t in enumerate(th):
            p[2, c] = 100 - min(abs(t - best), 50)
        return E.arr(p.tolist())
    E.patch(prep, "center_of_mass", com)
    E.patch(prep, "radon", radon)
    f = prep.calc_ver_slope if ver else prep.calc_hor_slope
    arg = E.arr(m.tolist(), "i2")
    keep = E.snap(arg)
    r = f(arg, ratio=1.0)
    if seen.get("com") != n * n or "radon" not in seen:
        other_way(E, "centroids or projections found in another way")
    if sparse:
        want = E.q(math.tan(math.radians(k)))
        E.check(E.abs(r - want) < E.q("1e-6"),
                "one dot on the line: slope of the projection")
    else:
        E.eq(r, s, "slope of the rows of dots", E.q("0.001"))
    E.unchanged(arg, keep, "image untouched")


def lines(E):
    """the angle is the one of the strongest projection, within 0.05/2"""
    ver, rng, c0, wid, npt, bgr = E.cfg[:6]
    opts = E.cfg[6] if len(E.cfg) > 6 else ""
    line = E.load("line")
    ang = E.real("angle", E.q(c0 - wid), E.q(c0 + wid))
    f = ang * 20 - E.floor(ang * 20)
    E.assume(E.Or(f < E.q("0.49"), f > E.q("0.51")))
    g = ang - E.floor(ang)
    E.assume(E.Or(g < E.q("0.49"), g > E.q("0.51")))
    pts, p = [], E.real("p0", 0, 9)
    for i in range(npt):
        pts.append(p)
        p = p + E.real("d%d" % i, 1, 90)
    img = [[E.q((7 * i + 3 * j + i * j) % 11) for j in range(8)]
           for i in range(8)]
    top, bot = E.real("top", 11, 50), E.real("bottom", -50, -1)
    img[4][4], img[5][5] = top, bot
    seen = []

    def radon(im, theta=None, circle=True, **kw):
        th = list(theta)
        h = im.shape[0]
        v = ang if ver else 90 - ang
        out = [[E.q(c % 3) for c in range(len(th))] for _ in range(h)]
        for c, t in enumerate(th):
            d = t - v
            out[h // 2][c] = 10000 - d * d
        out = E.arr(out)
        seen.append((im, th, out))
        return out

    def ext(list_data, option="min", radius=7, sensitive=0.1, denoise=True,
            norm=True, subpixel=True, select_peaks=False, **kw):
        seen.append((list_data, option))
        given.update(radius=radius, sensitive=sensitive, denoise=denoise,
                     norm=norm, subpixel=subpixel)
        return E.arr(pts)
    given, made = {}, []
    E.patch(line, "radon", radon)
    E.patch(line, "get_local_extrema_points", ext)
    fn = line.calc_slope_distance_ver_lines if ver else \
        line.calc_slope_distance_hor_lines
    # the region of interest in the middle of a larger image
    mat = E.arr([[img[i - 2][j - 2] if 2 <= i < 10 and 2 <= j < 10 else 60
                  for j in range(12)] for i in range(12)])
    keep = E.snap(mat)
    kw = {} if bgr is None else {"bgr": bgr}
    if rng is not None:
        kw["search_range"] = float(rng)
    want = dict(radius=9, sensitive=0.1, denoise=False, norm=True,
                subpixel=True)
    src = mat
    if "c" in opts:      # a chessboard: converted first
        src = E.arr([[E.q((i + 2 * j) % 5) for j in range(12)]
                     for i in range(12)])

        def conv(m, smooth=True, bgr="bright", sigma=3):
            made.append(("conv", m, bgr))
            return mat
        E.patch(line, "convert_chessboard_to_linepattern", conv)
        kw["chessboard"] = True
    if "d" in opts:      # smoothed
        base = E.arr([[E.q((3 * i + j) % 4) for j in range(12)]
                      for i in range(12)])
        if "c" not in opts:
            src = base

        def blur(m, sigma, **k):
            made.append(("blur", m, sigma))
            return mat
        if E.sym:
            E.state["ndimage"] = {"gaussian_filter": blur}
        else:
            import scipy.ndimage as nd
            E.patch(nd, "gaussian_filter", blur)
        want["denoise"] = True
    else:
        kw["denoise"] = False
    if "o" in opts:      # other options for the extrema
        want.update(radius=E.int("radius", 3, 30),
                    sensitive=E.real("sensitive", 0, 1),
                    norm=E.choice("norm", [False, True]), subpixel=False)
        for k in ("radius", "sensitive", "norm", "subpixel"):
            kw[k] = want[k]
    keep2 = E.snap(src)
    slope, dist = fn(src, ratio=0.7, **kw)
    E.unchanged(src, keep2, "image untouched")
    E.check([m[0] for m in made] == [t for c, t in (("c", "conv"),
                                                    ("d", "blur"))
                                     if c in opts],
            "chessboards are converted, images smoothed if asked for")
    if made and made[0][0] == "conv":
        E.check(made[0][2] == "bright",
                "chessboards become dark lines on a bright background")
    for k, m in enumerate(made):
        ref = src if k == 0 else mat
        for i, j in ((0, 0), (3, 7), (11, 11)):
            E.eq(m[1][i, j], ref[i, j], "image converted or smoothed")
    for k, v in want.items():
        E.check(given[k] == v, "extrema are found with the given options")
    if len(seen) != 3 or [len(s) for s in seen] != [3, 3, 2]:
        other_way(E, "projections or extrema found in another way")
    E.unchanged(mat, keep, "image untouched")
    # the image that is projected: lines bright on dark, inside a circle
    im = seen[0][0]
    E.shape_is(im, (8, 8), "region of interest")
    for i, j in ((4, 4), (5, 5), (3, 4), (4, 2), (4, 1), (2, 4), (7, 4)):
        v = top - img[i][j] if bgr in (None, "bright") else img[i][j]
        E.eq(im[i, j], v, "lines are bright in what is projected")
    E.eq(im[0, 0], 0, "corners are left out")
    # the tangent is straight within the small range
    r0 = math.radians(c0)
    a = E.q(c0) + (slope - E.q(math.tan(r0))) * E.q(
        math.degrees(math.cos(r0) ** 2))
    E.check(E.abs(a - ang) < E.q("0.03"), "angle of the lines")
    if npt > 3:
        d = [pts[k + 1] - pts[k] for k in range(npt - 1)]
        for i in range(len(d)):
            for j in range(len(d) - 1):
                if d[j] > d[j + 1]:
                    d[j], d[j + 1] = d[j + 1], d[j]
        n = len(d)
        want = d[n // 2] if n % 2 else (d[n // 2 - 1] + d[n // 2]) / 2
    else:
        want = (pts[-1] - pts[0]) / E.q(npt - 1)
    E.eq(dist, want, "distance of neighbouring lines")
    E.check(seen[2][1] == "max", "lines are maxima of the projection")
    h = im.shape[0]
    E.check(len(seen[2][0]) == h, "one projection is searched")
    d = seen[2][0][h // 2]
    E.check(d >= 10000 - E.q("0.0256") * E.q("0.0256"),
            "the strongest projection is searched")


HARNESSES = [
    H("dots", dots, quick=[(v, 3, 10, lo, lo + 11, False)
                           for v in (False, True)
                           for lo in (-30, -18, -6, 6, 19)] +
      [(False, 3, 10, -2, 2, True), (True, 3, 10, -2, 2, True)],
      thorough=[(v, 4, 10, lo, lo + 4, False) for v in (False, True)
                for lo in range(-30, 30, 5)],
      bounds="3 x 3 dots (thorough 4 x 4), any position and slope within 30 "
             "degrees"),
    H("lines", lines, quick=[(False, 2, 0, 2, 3, None),
                             (True, 2, 0, 2, 3, "bright"),
                             (False, 1, 0.4, 0.1, 5, "dark"),
                             (True, 1, -0.5, 0.2, 4, "dark"),
                             (False, 1, -0.5, 0.1, 4, None),
                             (False, None, -17, 0.6, 3, None),
                             (True, None, 23, 0.6, 3, None),
                             (False, None, 30, 0.01, 2, None),
                             (True, None, -30, 0.01, 2, None),
                             (False, 1, 0.4, 0.1, 3, None, "cd"),
                             (True, 1, 0.4, 0.1, 3, None, "cd"),
                             (False, 1, 0.4, 0.1, 3, None, "do"),
                             (True, 1, 0.4, 0.1, 3, "dark", "do")],
      bounds="any angle within 2 degrees, or within 0.6 degrees of some "
             "larger ones"),
]
