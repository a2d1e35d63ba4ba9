"""C29 selecting dots of a binary image by size, shape and distance."""
import numpy as np
from .common import *

SHAPES = {
    "dot": ["010", "111", "010"],
    "sq3": ["111", "111", "111"],
    "disk": ["01110", "11111", "11111", "11111", "01110"],
    "pix": ["1"],
    "bar": ["11111"],
    "bar2": ["1111111", "1111111"],
    "ell": ["10000", "10000", "10000", "10000", "11111"],
    "jay": ["00001", "00001", "00001", "00001", "11111"],
    "blk": ["1111111"] * 6,
    "ring": ["1111111"] * 3 + ["1110111"] + ["1111111"] * 3,
    "none": [],
}


def build(E, cells, opts):
    """a mask with one blob per cell, its shape chosen by the solver"""
    h = max(y for y, x in cells) + 10
    w = max(x for y, x in cells) + 10
    m = np.zeros((h, w), int)
    dots = []
    for k, (y, x) in enumerate(cells):
        names = opts[k] if isinstance(opts[k], tuple) else (opts[k],)
        s = names[0]
        if len(names) > 1:
            c = E.int("shape%d" % k, 0, len(names) - 1)
            s = names[next(i for i in range(len(names)) if c == i)]
        px = [(y + i, x + j) for i, r in enumerate(SHAPES[s])
              for j, v in enumerate(r) if v == "1"]
        for p in px:
            m[p] = 1
        if px:
            dots.append(px)
    return m, dots


def whole(E, out, m, dots, keep, exact=True):
    """every dot is there unchanged or gone; keep[k] says which"""
    E.shape_is(out, m.shape, "shape of the image")
    bg = np.ones(m.shape, bool)
    for px, kp in zip(dots, keep):
        n = sum(1 for p in px if out[p] == 1)
        z = sum(1 for p in px if out[p] == 0)
        E.check(n == len(px) or z == len(px), "dots stay whole or go whole")
        if kp is not None:
            E.check(n == len(px) if kp else z == len(px),
                    "dot kept" if kp else "dot removed")
        for p in px:
            bg[p] = False
    E.check(all(out[int(i), int(j)] == 0 for i, j in zip(*np.nonzero(bg))),
            "nothing is added")


def size(E):
    cells, opts, form = E.cfg[:3]
    prep = E.load("prep")
    m, dots = build(E, cells, opts)
    if len(E.cfg) > 3:      # no rounding: the borders belong to the range
        ds = E.int("dot_size", 1, 40)
        r = E.choice("ratio", [E.q("1/4"), E.q("1/2"), E.q(0), E.q(1)])
        ds = next(k for k in range(1, 41) if ds == k)
    else:
        ds = E.real("dot_size", 1, 40)
        r = E.real("ratio", 0, 2)
    a = E.arr(m.tolist(), form)
    keep0 = E.snap(a)
    for px in dots if len(E.cfg) == 3 else ():  # not on the borders
        d = len(px) - ds
        E.assume(E.abs(E.abs(d) - r * ds) > E.q("1e-6"))
    out = prep.select_dots_based_size(a, ds, ratio=r)
    keep = [bool(E.And(len(px) >= ds - r * ds, len(px) <= ds + r * ds))
            for px in dots]
    whole(E, out, m, dots, keep)
    E.unchanged(a, keep0, "image untouched")


def axes(px):
    import skimage.measure as meas
    ys, xs = [p[0] for p in px], [p[1] for p in px]
    b = np.zeros((max(ys) - min(ys) + 1, max(xs) - min(xs) + 1), int)
    for y, x in px:
        b[y - min(ys), x - min(xs)] = 1
    if min(b.shape) < 2:
        return None
    p = meas.regionprops(b)[0]
    return float(p.axis_major_length / p.axis_minor_length - 1)


def shape(E):
    cells, opts, form = E.cfg[:3]
    prep = E.load("prep")
    m, dots = build(E, cells, opts)
    r = E.real("ratio", 0, 4) if len(E.cfg) == 3 else E.q(0)
    a = E.arr(m.tolist(), form)
    keep0 = E.snap(a)
    vals = [axes(px) for px in dots]
    for v in vals if len(E.cfg) == 3 else ():
        if v is not None:
            E.assume(E.abs(E.q(v) - r) > E.q("1e-6"))
    out = prep.select_dots_based_ratio(a, ratio=r)
    keep = [v is not None and bool(E.q(v) < r) for v in vals]
    whole(E, out, m, dots, keep)
    E.unchanged(a, keep0, "image untouched")


def _cent(dots):
    return [(sum(p[0] for p in px) / len(px), sum(p[1] for p in px) / len(px))
            for px in dots]


def distance(E):
    cells, opts, form, fixed = E.cfg
    prep = E.load("prep")
    m, dots = build(E, cells, opts)
    dd = E.q(fixed[1]) if fixed[0] == "dist" else E.real("dot_dist", 9, 16)
    r = E.q(fixed[1]) if fixed[0] == "ratio" else \
        E.real("ratio", E.q("1/100"), E.q("1/2"))
    a = E.arr(m.tolist(), form)
    keep0 = E.snap(a)
    out = prep.select_dots_based_distance(a, dd, ratio=r)
    cs = _cent(dots)
    eps = E.q("1e-6")
    keep = []
    for y, x in cs:
        near = sorted(((y - v) ** 2 + (x - u) ** 2) ** 0.5
                      for v, u in cs)[1:4]
        at = far = None
        for d in near:
            t = E.q(d) / dd
            f = t - E.floor(t)
            good = E.And(f > eps, f < r - eps)
            bad = E.And(f > r + eps, f < 1 - r - eps)
            at = good if at is None else E.Or(at, good)
            far = bad if far is None else E.And(far, bad)
        if at:
            keep.append(True)
        elif far:
            keep.append(False)
        else:
            keep.append(None)
    whole(E, out, m, dots, keep)
    E.unchanged(a, keep0, "image untouched")


def enough(E):
    n, k = E.cfg
    prep = E.load("prep")
    m = np.zeros((13, 13), int)
    spots = [(y, x) for y in range(1, 13, 2) for x in range(1, 13, 2)]
    cnt = 0
    for i, p in enumerate(spots[:n]):
        if i >= k or E.bool("d%d" % i):
            m[p] = 1
            cnt += 1
    r = prep.check_num_dots(E.arr(m.tolist(), "i2"))
    E.check(bool(r) == (cnt < 25), "fewer than 25 dots are reported")


def median(E):
    cells, opts, form = E.cfg
    from scipy import ndimage as nd
    prep = E.load("prep")
    m, dots = build(E, cells, opts)
    h, w = m.shape
    r = E.real("ratio", E.q("1/2"), E.q("11/10"))
    rc = E.min(r, 1)
    a = E.arr(m.tolist(), form)
    keep0 = E.snap(a)
    dy, dx = (h - rc * h) / 2, (w - rc * w) / 2
    for v in (dy, dx):       # the ROI is not decided by rounding
        E.assume(E.And(v - E.floor(v) > E.q("1e-6"),
                       v - E.floor(v) < 1 - E.q("1e-6")) if r < 1 else
                 r > E.q("1.0001"))
    dy = next(k for k in range(h) if E.And(dy >= k, dy < k + 1))
    dx = next(k for k in range(w) if E.And(dx >= k, dx < k + 1))
    inner = []
    for px in dots:
        ys, xs = [p[0] for p in px], [p[1] for p in px]
        if min(ys) > dy and max(ys) < h - dy - 1 and min(xs) > dx and \
                max(xs) < w - dx - 1:
            inner.append(px)
    if len(inner) < 2:
        return E.check(True, "too few dots")
    s, d = prep.calc_size_distance(a, ratio=r)
    cs = _cent(inner)
    near = [sorted(((y - v) ** 2 + (x - u) ** 2) ** 0.5
                   for v, u in cs)[1] for y, x in cs]
    E.eq(s, E.q(float(np.median([len(p) for p in inner]))), "median size")
    E.eq(d, E.q(float(np.median(near))), "median distance")
    E.unchanged(a, keep0, "image untouched")


C4 = ((1, 1), (1, 12), (13, 2), (12, 14))
C5 = C4 + ((24, 8),)
OV = ((1, 1), (1, 3), (10, 2))
JO = ((1, 1), (1, 1), (10, 2))
HARNESSES = [
    H("size", size, quick=[
        (C4, (("dot", "sq3"), ("disk", "pix", "none"), "bar", "sq3"), "f4"),
        (C4, ("dot", ("bar2", "ell"), ("pix", "disk"), "sq3"), "i2"),
        (OV, ("ell", ("dot", "pix", "none"), "sq3"), "f4"),
        (JO, (("dot", "pix", "sq3"), "jay", "sq3"), "i2"),
        (C4, (("dot", "sq3"), ("disk", "pix", "none"), "bar", "sq3"), "f4",
         "exact")],
      bounds="3-4 dots of 1-21 pixels, any standard size and ratio, one dot "
             "within the bounding box of another"),
    H("shape", shape, quick=[
        (C4, (("dot", "sq3"), ("disk", "pix", "none"), "bar", "bar2"), "f4"),
        (C4, ("dot", ("bar2", "ell"), ("pix", "disk"), "sq3"), "i2"),
        (OV, ("ell", ("dot", "pix", "none"), "sq3"), "i4"),
        (JO, (("dot", "pix", "sq3"), "jay", "sq3"), "f4"),
        (C4, ("dot", ("sq3", "disk"), ("pix", "disk"), "sq3"), "i2",
         "zero")],
      bounds="3-4 dots, any ratio, one dot within the bounding box of "
             "another"),
    H("distance", distance, quick=[
        (C4, ("dot", "sq3", ("disk", "pix"), "dot"), "f4", ("dist", "9.5")),
        (C5, ("sq3", ("dot", "none"), "disk", "sq3", "pix"), "i2",
         ("dist", "8")),
        (C4, ("dot", "sq3", "disk", "dot"), "f4", ("ratio", "0.3")),
        (OV + ((20, 9),), ("ell", "pix", "sq3", "dot"), "i2",
         ("dist", "7")),
        (JO + ((20, 9),), (("dot", "pix"), "jay", "sq3", "dot"), "i2",
         ("dist", "7"))],
      thorough=[
        (C4, ("dot", "sq3", ("disk", "pix"), "dot"), "f4", ("", "")),
        (C5, ("sq3", ("dot", "none"), "disk", "sq3", "pix"), "i2", ("", "")),
        (C4, ("dot", "sq3", "disk", "dot"), "f4", ("ratio", "0.3")),
        (OV + ((20, 9),), ("ell", "pix", "sq3", "dot"), "i2",
         ("dist", "7"))],
      budget=90, bounds="4-5 dots; either any ratio up to 1/2 or any distance "
                        "9-16 (thorough: both)"),
    H("enough", enough, quick=[(26, 3), (25, 1), (36, 0), (24, 0)],
      bounds="22-36 dots"),
    H("median", median, quick=[
        (C5, ("dot", "sq3", ("disk", "pix"), "dot", "sq3"), "i2"),
        (C5 + ((25, 20),), ("sq3", ("dot", "none"), "disk", "sq3", "bar",
                            "dot"), "f4")],
      budget=90, bounds="5-6 dots, ratio 0.5-1.1"),
]
ASSUMPTIONS = ["scipy.ndimage labelling, centroids and skimage.regionprops "
               "are executed as they are on masks decided along the path",
               "distance selection: only distances clearly inside "
               "[k, k + ratio) or clearly outside the tolerance on both "
               "sides of a multiple of dot_dist are judged"]
