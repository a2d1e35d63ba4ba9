"""C19 parabola mask and removal of points outside it."""
from .common import *


def inside(E, y, x, h, w, hc, vc, lm, rm, tm, bm, tie):
    """strictly inside the four parabolas"""
    q = E.q
    u, v = x - w * q("0.5"), y - h * q("0.5")
    bow_v = vc / w * u * u
    bow_h = hc / h * v * v
    d = [y - bow_v - tm, h - bm - bow_v - y, x - bow_h - lm,
         w - rm - bow_h - x]
    if not tie:                    # curved: not within rounding of the edge
        for t in d:
            E.assume(abs(t) > q("1e-4"))
    return E.And(*[t > 0 for t in d])


def setup(E, form, h, w, curved):
    q = E.q
    lo = 0 if form != "neg" else -3
    if curved:
        hc, vc = E.real("hc", -1, 1), E.real("vc", -1, 1)
    else:
        hc = vc = 0
    lm, rm, tm, bm = [E.int(n, lo, 40) for n in ("lm", "rm", "tm", "bm")]
    if form in ("int", "default"):
        rm, bm = lm, tm
        hm, vm = lm, tm
    elif form == "list":
        hm, vm = [lm, rm], [tm, bm]
    else:
        hm, vm = (lm, rm), (tm, bm)
    ok = E.And(lm + rm <= w, tm + bm <= h)
    return hc, vc, lm, rm, tm, bm, hm, vm, ok


def mask(E):
    form, size, curved = E.cfg
    prep = E.load("prep")
    if size is None:
        h, w = E.big_int("H", 2, 4000), E.big_int("W", 2, 4000)
        E.assume(E.Or(h <= 60, w <= 60, E.And(h <= 600, w <= 600)))
    else:
        h, w = size
    hc, vc, lm, rm, tm, bm, hm, vm, ok = setup(E, form, h, w, curved)
    E.assume(ok)
    keep = (E.snap(hm), E.snap(vm))
    out = prep.make_parabola_mask(h, w, hor_curviness=hc, ver_curviness=vc,
                                  hor_margin=hm, ver_margin=vm)
    E.shape_is(out, (h, w), "mask size")
    if size is None:
        i, j = E.pixel(h, w, None)
        E.probe(i, j)
        at = [(i, j)]
    else:
        at = [(i, j) for i in range(h) for j in range(w)]
    for i, j in at:
        c = inside(E, i, j, h, w, hc, vc, lm, rm, tm, bm, not curved)
        E.eq(E.at(out, i, j), E.ite(c, 1, 0), "1 inside, 0 outside")
    E.unchanged((hm, vm), keep, "margins untouched")


def default(E):
    """documented default margins and curviness"""
    prep = E.load("prep")
    h, w = E.big_int("H", 201, 1000), E.big_int("W", 201, 1000)
    out = prep.make_parabola_mask(h, w)
    E.shape_is(out, (h, w), "mask size")
    i, j = E.pixel(h, w, 999)
    k = E.q("0.3")
    E.probe(i, j)
    c = inside(E, i, j, h, w, k, k, 100, 100, 100, 100, False)
    E.eq(E.at(out, i, j), E.ite(c, 1, 0), "default parameters")


def refuse(E):
    form = E.cfg
    prep = E.load("prep")
    h, w = E.big_int("H", 2, 60), E.big_int("W", 2, 60)
    hc, vc, lm, rm, tm, bm, hm, vm, ok = setup(E, form, h, w, True)
    out = E.call(prep.make_parabola_mask, h, w, hor_curviness=hc,
                 ver_curviness=vc, hor_margin=hm, ver_margin=vm)
    if ok:
        E.check(out.ok, "margins that fit are accepted")
    else:
        exc_is(E, out, (ValueError,), "too large margins: ValueError")


def points(E):
    form, size, curved, n = E.cfg[:4]
    far = E.cfg[4] if len(E.cfg) > 4 else 680
    prep = E.load("prep")
    q = E.q
    if size is None:
        h, w = E.big_int("H", 2, 600), E.big_int("W", 2, 600)
    else:
        h, w = size
    hc, vc, lm, rm, tm, bm, hm, vm, ok = setup(E, form, h, w, curved)
    E.assume(ok)
    pts = []
    for k in range(n):
        lo = -80 if far == 680 else -far
        y, x = E.real("y%d" % k, lo, far), E.real("x%d" % k, lo, far)
        for t in (y, x):      # the edge of the image within a pixel is not
            E.assume(E.Or(t <= -1, t >= 0))          # specified
        pts.append([y, x])
    arr = E.arr(pts)
    keep = E.snap(arr)
    out = prep.remove_points_using_parabola_mask(
        arr, h, w, hor_curviness=hc, ver_curviness=vc, hor_margin=hm,
        ver_margin=vm)
    want = []
    for y, x in pts:
        inimg = E.And(y >= 0, y < h, x >= 0, x < w)
        if inimg:
            i, j = E.floor(y), E.floor(x)
            if inside(E, i, j, h, w, hc, vc, lm, rm, tm, bm, not curved):
                want.append([y, x])
    E.check(len(out) == len(want), "points inside the mask")
    for a, b in zip(out, want):
        E.eq(a[0], b[0], "points kept in order")
        E.eq(a[1], b[1], "points kept in order")
    E.unchanged(arr, keep, "points untouched")


def rotated(E):
    """the rotated mask is the rounded rotation of the mask"""
    h, w, angle = E.cfg
    prep = E.load("prep")
    a = E.real("angle", -180, 180) if angle is None else E.q(angle)
    E.assume(E.Not(E.And(a > -1, a < 1)))
    lm, rm, tm, bm = [E.int(n, 0, 4) for n in ("lm", "rm", "tm", "bm")]
    E.assume(E.And(lm + rm <= w, tm + bm <= h))
    k = E.q("0.3")
    arg = dict(hor_margin=(lm, rm), ver_margin=(tm, bm), hor_curviness=k,
               ver_curviness=k)
    out = prep.make_parabola_mask(h, w, rotate=a, **arg)
    E.shape_is(out, (h, w), "mask size")
    base = prep.make_parabola_mask(h, w, **arg)
    if E.sym:
        r = [d for n, d in E.records if n == "rotate"]
        E.check(len(r) == 1, "rotated once")
        E.eq(r[0]["args"][0], a, "angle")
        for i in range(h):
            for j in range(w):
                E.eq(r[0]["input"][i][j], base[i][j], "the mask is rotated")
        ref = r[0]["out"]
    else:
        from scipy import ndimage
        ref = ndimage.rotate(base, a, reshape=False)
    for i in range(h):
        for j in range(w):
            v = ref[i][j]
            E.assume(E.And(v > -1, v < 2))
            if E.sym:
                z = E.rint(v)
            else:
                z = round(float(v))
                if abs(abs(v - z) - 0.5) < 1e-3:
                    continue
            E.eq(out[i][j], z, "rounded to 0 and 1")


S = [(6, 7), (5, 9)]
Q = [("int", None, True), ("tuple", None, True), ("list", None, True),
     ("list", None, False), ("tuple", None, False), ("neg", None, True)] + \
    [("tuple", s, c) for s in S for c in (True, False)]
HARNESSES = [
    H("mask", mask, quick=Q, budget=100,
      bounds="sizes up to 4000 by 60 or 600 by 600, any pixel; margins up "
             "to 40; curviness -1..1"),
    H("default", default, quick=[None], bounds="sizes 201..1000, any pixel"),
    H("rotated", rotated, quick=[(5, 6, None), (6, 6, 90), (4, 7, -30)],
      bounds="sizes 4-7, any margins up to 4, any or given angle"),
    H("refuse", refuse, quick=["int", "tuple", "list"],
      bounds="sizes up to 60, margins up to 40"),
    H("points", points, quick=[("tuple", None, False, 1),
                               ("list", None, True, 1),
                               ("int", None, False, 2),
                               ("tuple", None, True, 2),
                               ("list", None, False, 2),
                               ("int", None, False, 1, 200000)],
      thorough=[("tuple", None, True, 3), ("list", None, False, 3)],
      budget=120, bounds="sizes up to 600, 1-3 points in or out of the image (up to "
             "200000 pixels away)"),
]
ASSUMPTIONS = ["real arithmetic stands for float rounding"]
