"""C30 from a grey image to the centroids of its dots."""
import numpy as np
from .common import *
from .c29 import build, _cent


def roi(E):
    form, square = E.cfg
    prep = E.load("prep")
    h, w = sizes(E)
    r = E.real("ratio", -1, 2)
    img = E.image("m", (h, w))
    if square:
        out = prep._select_roi(img, r, square=True)
    else:
        out = prep._select_roi(img, r)
    rc = E.clip(r, E.q(0.05), 1)
    if square:
        m = E.min(h, w)
        rad = E.floor(E.floor(rc * m) / E.q(2))
        oy, ox = E.floor(h / E.q(2)) - rad, E.floor(w / E.q(2)) - rad
        nh = nw = 2 * rad
    else:
        oy = E.trunc((h - rc * h) / 2)
        ox = E.trunc((w - rc * w) / 2)
        nh, nw = h - 2 * oy, w - 2 * ox
    if form == "shape":
        E.shape_is(out, (nh, nw), "size of the region")
        return
    for i, j in E.pixels(nh, nw):
        E.eq(E.at(out, i, j), E.at(img, i + oy, j + ox), "content, centred")


def norm(E):
    cells, size = E.cfg
    prep = E.load("prep")
    E.state["exact_filters"] = True
    h, w = len(cells), len(cells[0])
    v = {}
    for c in sorted({x for r in cells for x in r if isinstance(x, str)}):
        v[c] = E.real(c, E.q("1/100"), 100)
    rows = [[v.get(x, x) for x in r] for r in cells]
    img = E.arr(rows, "f8")
    keep = E.snap(img)
    out = prep.normalization(img, size)
    # the background: median over size x size, mirrored borders

    def ix(i, n):
        i %= 2 * n
        return i if i < n else 2 * n - 1 - i
    bck = []
    for y in range(h):
        bck.append([])
        for x in range(w):
            win = [rows[ix(y - size // 2 + a, h)][ix(x - size // 2 + b, w)]
                   for a in range(size) for b in range(size)]
            srt = []
            for u in win:
                k = len(srt)
                while k > 0 and u < srt[k - 1]:
                    k -= 1
                srt.insert(k, u)
            bck[-1].append(srt[len(srt) // 2])
    mean = sum(sum(r) for r in bck) / E.q(h * w)
    if mean == 0:
        return E.check(True, "no background")
    E.shape_is(out, (h, w), "shape")
    for y in range(h):
        for x in range(w):
            b = bck[y][x]
            b = mean if b == 0 else b
            E.eq(out[y, x], mean * rows[y][x] / b, "background divided out")
    E.unchanged(img, keep, "image untouched")


def binar(E):
    """two grey levels, any threshold"""
    cells, opts, denoise, form = E.cfg
    prep = E.load("prep")
    E.state["exact_filters"] = True
    m, dots = build(E, cells, opts)
    a, b = E.real("dots", -50, 200), E.real("background", -50, 200)
    t = E.real("thres", -50, 200)
    E.assume(E.abs(E.abs(a) - E.abs(b)) > E.q("1e-3"))
    for v in (a, b):
        E.assume(E.And(E.abs(v - t) > E.q("1e-3"),
                       E.abs(E.abs(v) - t) > E.q("1e-3")))
    rows = [[a if m[y, x] else b for x in range(m.shape[1])]
            for y in range(m.shape[0])]
    img = E.arr(rows, form)
    keep = E.snap(img)
    out = prep.binarization(img, thres=t, denoise=denoise)
    E.unchanged(img, keep, "image untouched")
    from scipy import ndimage as nd
    # what is above the threshold
    if denoise:
        hi = bool(E.abs(a) > E.abs(b))
        lev = nd.median_filter(m if hi else 1 - m, (2, 2))
        up, lo = (a, b) if hi else (b, a)
        up, lo = bool(E.abs(up) > t), bool(E.abs(lo) > t)
    else:
        lev = m
        up, lo = bool(a > t), bool(b > t)
    w = np.where(lev == 1, up, lo).astype(int)
    if 2 * w.sum() > w.size:
        w = 1 - w
    # features touching the border go, specks go, holes are filled
    lab, n = nd.label(w, np.ones((3, 3)))
    edge = set(lab[0]) | set(lab[-1]) | set(lab[:, 0]) | set(lab[:, -1])
    w = np.where(np.isin(lab, sorted(edge)), 0, w)
    plus = nd.generate_binary_structure(2, 1)
    er = nd.binary_erosion(w, plus, border_value=1)
    w = nd.binary_fill_holes(nd.binary_dilation(er, plus))
    E.shape_is(out, m.shape, "shape")
    ok = all(int(out[y, x]) == int(w[y, x]) for y in range(m.shape[0])
             for x in range(m.shape[1]))
    E.check(ok, "dots are 1, the rest 0")


def points(E):
    cells, opts, kind = E.cfg
    prep = E.load("prep")
    m, dots = build(E, cells, opts)
    hi = E.real("hi", -2, 2) if kind in ("scaled", "hi") else 1
    lo = E.real("lo", -2, 2) if kind in ("scaled", "lo") else 0
    if kind != "mask":
        E.assume(lo < hi)
    a = E.arr([[hi if v else lo for v in r] for r in m.tolist()],
              "f4" if kind != "mask" else "i2")
    keep = E.snap(a)
    r = E.call(prep.get_points_dot_pattern, a, binarize=False)
    E.unchanged(a, keep, "image untouched")
    if E.Not(E.And(hi == 1, lo == 0)):
        E.check(r.is_a(ValueError), "an image that is not binary is refused")
        return
    E.check(r.ok, "points found")
    E.shape_is(r.value, (len(dots), 2), "one point per dot")
    want = sorted(_cent(dots))
    got = sorted((float(p[0]), float(p[1])) for p in r.value)
    E.check(all(abs(p[0] - q[0]) < 1e-6 and abs(p[1] - q[1]) < 1e-6
                for p, q in zip(got, want)), "the centroids")


def grouped(E):
    """grouping an image is grouping its centroids"""
    cells, opts, ver = E.cfg
    prep = E.load("prep")
    m, dots = build(E, cells, opts)
    f = prep.group_dots_ver_lines if ver else prep.group_dots_hor_lines
    sl = E.real("slope", E.q("-1/4"), E.q("1/4"))
    dd = E.q("11.3")
    r = E.real("ratio", E.q("1/10"), E.q("1/2"))
    a = E.call(f, E.arr(m.tolist(), "i2"), sl, dd, ratio=r)
    pts = E.arr([[E.q(y), E.q(x)] for y, x in _cent(dots)])
    b = E.call(f, pts, sl, dd, ratio=r)
    E.check(a.ok == b.ok, "both succeed or neither does")
    if not a.ok:
        return
    E.check(len(a.value) == len(b.value), "as many lines")
    for p, q in zip(a.value, b.value):
        E.shape_is(p, tuple(q.shape), "as many dots")
        for u, v in zip(p, q):
            E.eq(u[0], v[0], "dot y")
            E.eq(u[1], v[1], "dot x")


def thres(E):
    n, perm, bgr = E.cfg
    prep = E.load("prep")
    v = [E.real("v%d" % i, -100, 100) for i in range(n)]
    for p, q in zip(v, v[1:]):
        E.assume(p <= q)
    snr = E.real("snr", 0, 10)
    row = [v[i] for i in perm]
    img = E.arr([row])
    keep = E.snap(img)
    if bgr == "default":
        bgr, snr = "bright", 2
        t = prep.calculate_threshold(img)
    else:
        t = prep.calculate_threshold(img, bgr=bgr, snr=snr)
    E.unchanged(img, keep, "image untouched")
    k = n // 4
    xs = [E.q(i) for i in range(k, n - k - 1)]
    a, b = line_fit(E, xs, v[k:n - k - 1])
    end = b + a * (n - 1)
    noise = E.abs(a * (n - 1))
    want = b - noise * snr / 2 if bgr == "bright" else end + noise * snr / 2
    E.eq(t, want, "threshold from the line through the sorted values")


def otsu(E):
    """no threshold given: Otsu's, of the region of interest"""
    (h, w), y0, x0, ratio = E.cfg
    prep = E.load("prep")
    lo, hi, art = E.choice("levels", [(1, 9, 400), (30, 10, 3000),
                                      (5, 2, 0), (3, 50, 9000)])
    m = np.zeros((h, w), int)
    for y in range(5, h - 6, 9):
        for x in range(5, w - 6, 9):
            m[y:y + 4, x:x + 4] = 1
    img = np.where(m == 1, hi, lo).astype(float)
    dy = int((h - ratio * h) / 2)
    dx = int((w - ratio * w) / 2)
    if ratio > 0.8:               # a faint thing in the middle
        m[h // 2 - 9:h // 2 + 9, w // 2 - 9:w // 2 + 9] = 0
        img = np.where(m == 1, hi, lo).astype(float)
        img[h // 2 - 5:h // 2 + 3, w // 2 - 5:w // 2 + 3] += (hi - lo) / 8
    img[:y0, :] = art             # a bright band outside the region
    img[:, w - x0:] = art
    E.assume(y0 < dy and x0 < dx)
    a = E.arr(img.tolist(), "f8")
    keep = E.snap(a)
    out = prep.binarization(a, denoise=False) if ratio == 0.3 else \
        prep.binarization(a, ratio=ratio, denoise=False)
    E.unchanged(a, keep, "image untouched")
    E.shape_is(out, (h, w), "shape")
    ok = True
    from scipy import ndimage as nd
    plus = nd.generate_binary_structure(2, 1)
    m = nd.binary_opening(m, plus)
    for y in range(dy, h - dy):
        for x in range(dx, w - dx):
            ok = ok and int(out[y, x]) == int(m[y, x])
    E.check(ok, "dots of the region of interest are 1, the rest 0")


C3 = ((2, 2), (3, 13), (13, 3))
D4 = ((1, 1), (1, 9), (9, 1), (9, 9))
C4 = ((1, 1), (1, 12), (13, 2), (12, 14))
HARNESSES = [
    H("roi", roi, quick=[("shape", False), ("shape", True), ("at", False),
                         ("at", True)], bounds="images of 2-70000 pixels, "
                                              "any ratio"),
    H("norm", norm, quick=[((("a", "a", 0), (0, "b", 0), (0, 0, 0)), 3),
                           ((("a", "b"), ("b", "a")), 3),
                           ((("a", "a", "b", "b"),), 3),
                           ((("a", 0, 0, "b", "b"),), 3),
                           ((("a", "b", "c"),), 3)],
      bounds="up to 9 pixels, window 3"),
    H("binar", binar, quick=[
        (C3, ("disk", ("sq3", "pix"), "disk"), False, "f8"),
        (C3, ("disk", "disk", ("ell", "bar")), False, "f4"),
        (((0, 2), (4, 12), (12, 3)), ("disk", "disk", "sq3"), False, "f8"),
        (C3, ("disk", "disk", "sq3"), True, "f8"),
        (D4, ("blk", "blk", "blk", ("blk", "disk")), False, "f8"),
        (D4, ("blk", "blk", "blk", "blk"), True, "f4"),
        (C3, ("ring", ("ring", "disk"), "sq3"), False, "f8")],
      bounds="3-4 dots, covering up to 47 % of the image, two grey levels, any threshold"),
    H("otsu", otsu, quick=[((40, 50), 3, 3, 0.5), ((60, 56), 9, 8, 0.3),
                           ((44, 44), 0, 6, 0.4),
                           ((50, 48), 0, 0, 0.9)],
      bounds="four pairs of grey levels of dots and background, something "
             "else outside the region of interest"),
    H("points", points, quick=[
        (C4, ("dot", ("sq3", "none"), ("disk", "pix"), "bar"), "mask"),
        (C3, ("ell", "dot", "sq3"), "scaled"),
        (C3, ("ell", "dot", "sq3"), "hi"), (C3, ("ell", "dot", "sq3"), "lo")],
      bounds="3-4 dots; any two grey levels"),
    H("grouped", grouped, quick=[
        (((1, 1), (1, 12), (13, 2), (12, 14)), ("dot", "sq3", "dot", "disk"),
         False),
        (((1, 1), (1, 12), (13, 2), (12, 14)), ("dot", "sq3", "dot", "disk"),
         True)],
      bounds="4 dots, slope within 1/4, ratio 0.1-0.5"),
    H("thres", thres, quick=[(8, (0, 1, 2, 3, 4, 5, 6, 7), "bright"),
                             (8, (3, 1, 7, 0, 4, 6, 2, 5), "dark"),
                             (9, (8, 7, 6, 5, 4, 3, 2, 1, 0), "bright"),
                             (10, (8, 7, 6, 5, 9, 4, 3, 2, 1, 0), "default"),
                             (12, (11, 0, 5, 1, 2, 9, 8, 3, 4, 6, 7, 10),
                              "dark")],
      bounds="8-12 values (an image of one row)"),
]
ASSUMPTIONS = ["real arithmetic stands for float rounding",
               "labelling, border clearing, opening and hole filling are the "
               "library's, executed on masks decided along the path",
               "the Otsu threshold is the library's, for given grey levels; "
               "all other runs are given a threshold",
               "calculate_threshold: images of one row, where downsampling "
               "is the identity"]
