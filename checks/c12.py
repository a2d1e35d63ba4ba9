"""C12 four perspective points are turned into a rectangle."""
from .common import *


def order4(E, pts):
    """points given in any order"""
    k = E.choice("perm", [0, 1, 2, 3])
    return [[0, 1, 2, 3], [3, 1, 0, 2], [2, 3, 0, 1], [1, 0, 3, 2]][k]


def any4(E):
    """arbitrary convex quadrilateral: source order and target rectangle"""
    io, equal, scale, form, free = E.cfg
    proc = E.load("proc")
    r = 12
    base = [(0, 0), (0, 60), (50, 0), (50, 60)]
    if free is None:
        # trapezoid: top and bottom sides horizontal
        y1, y3 = E.real("top", -r, r), 50 + E.real("bot", -r, r)
        pts = [(y1, E.real("x1", -r, r)), (y1, 60 + E.real("x2", -r, r)),
               (y3, E.real("x3", -r, r)), (y3, 60 + E.real("x4", -r, r))]
    else:
        # concrete corners but for the listed coordinates
        off = [(3, -2), (-4, 5), (6, 1), (2, 7)]
        pts = [tuple(b + (E.real("%s%d" % ("yx"[z], k), -r, r)
                          if (k, z) in free else E.q(off[k][z]))
                     for z, b in enumerate(base[k])) for k in range(4)]
    p = order4(E, pts)
    arg = [[pts[k][0], pts[k][1]] if io != "xy" else [pts[k][1], pts[k][0]]
           for k in p]
    arg = E.arr(arg) if form == "array" else arg
    keep = E.snap(arg)
    kw = {}
    if io is not None:
        kw["input_order"] = io
    if equal is not None:
        kw["equal_dist"] = equal
    if scale is not None:
        kw["scale"] = scale
    s, t = proc.generate_4_source_target_perspective_points(arg, **kw)
    E.shape_is(s, (4, 2), "four source points")
    E.shape_is(t, (4, 2), "four target points")
    for k in range(4):
        E.eq(s[k, 0], pts[k][0], "source order TL, TR, BL, BR (y)")
        E.eq(s[k, 1], pts[k][1], "source order TL, TR, BL, BR (x)")
    E.unchanged(arg, keep, "input untouched")
    P = [(t[k, 0], t[k, 1]) for k in range(4)]
    u = (P[1][0] - P[0][0], P[1][1] - P[0][1])
    v = (P[2][0] - P[0][0], P[2][1] - P[0][1])
    for k in range(2):
        E.eq(P[3][k] + P[0][k], P[1][k] + P[2][k], "parallelogram",
             E.q("0.01"))
    E.eq((u[0] * v[0] + u[1] * v[1]) / 100, 0, "right angles", E.q("0.01"))

    def d(a, b):
        return E.sqrt((a[0] - b[0]) * (a[0] - b[0]) +
                      (a[1] - b[1]) * (a[1] - b[1]))
    top, bot = d(pts[0], pts[1]), d(pts[2], pts[3])
    left, right = d(pts[0], pts[2]), d(pts[1], pts[3])
    if scale == "max":
        a, b = E.max(top, bot), E.max(left, right)
        if equal:
            a = b = E.max(a, b)
    elif scale == "min":
        a, b = E.min(top, bot), E.min(left, right)
        if equal:
            a = b = E.min(a, b)
    else:
        a, b = (top + bot) / 2, (left + right) / 2
        if isinstance(scale, float):
            a, b = a * E.q(scale), b * E.q(scale)
        if equal:
            a = b = (a + b) / 2
    E.eq((u[0] * u[0] + u[1] * u[1] - a * a) / 100, 0, "width",
         E.q("0.02"))
    E.eq((v[0] * v[0] + v[1] * v[1] - b * b) / 100, 0, "height",
         E.q("0.02"))
    if free is None:
        E.check(u[1] > 0, "left to right")
        E.check(v[0] > 0, "top to bottom")


def rect(E):
    """a (rotated) rectangle is its own target"""
    scale, io, sign = E.cfg
    proc = E.load("proc")
    q = E.q
    y0, x0 = E.real("y0", -500, 500), E.real("x0", -500, 500)
    c, s = 1, 0
    if sign:
        s = sign * E.real("slope", q("0.01"), q("0.25"))
    a, b = E.real("w", 40, 90), E.real("h", 40, 90)
    P = [(y0 - b * c * j + a * s * i, x0 + b * s * j + a * c * i)
         for j in (1, -1) for i in (-1, 1)]
    arg = [[y, x] if io == "yx" else [x, y] for y, x in P]
    arg = [arg[k] for k in order4(E, P)]
    sp, tp = proc.generate_4_source_target_perspective_points(
        E.arr(arg), input_order=io, scale=scale)
    for k in range(4):
        for z in range(2):
            E.eq(sp[k, z], P[k][z], "source order", q("0.01"))
            E.eq(tp[k, z], P[k][z], "a rectangle is its own target",
                 q("0.01"))


def wrong(E):
    n, = E.cfg
    proc = E.load("proc")
    p = [[E.real("y%d" % k, 0, 100), E.real("x%d" % k, 0, 100)]
         for k in range(n)]
    r = E.call(proc.generate_4_source_target_perspective_points, E.arr(p))
    E.check(r.is_a(ValueError), "four points are required")


T1 = ((0, 0),)
T2 = ((1, 0),)
T3 = ((2, 0),)
T4 = ((3, 1),)
HARNESSES = [
    H("any4", any4,
      quick=[(None, None, None, "array", T1), ("xy", True, "max", "list",
                                               None),
             ("yx", True, "min", "array", None),
             ("xy", False, 1.5, "list", None),
             ("yx", True, 3.0, "array", T2), ("yx", False, 0.25, "list", T3),
             ("yx", True, "mean", "array", None),
             ("yx", False, "max", "array", None),
             ("yx", False, "max", "array", T2),
             ("xy", False, "min", "array", T3),
             ("yx", True, "mean", "list", T4)],
      thorough=[(i, e, s, "array", x) for i in ("xy", "yx")
                for e in (True, False) for s in ("mean", "min", "max", 0.8)
                for x in (None, T1, T2, T3, T4)], budget=100,
      bounds="corners within 12 pixels of a 50x60 rectangle: trapezoids with "
             "six free numbers, general quadrilaterals with up to two free "
             "coordinates; four input orders"),
    H("rect", rect, quick=[("mean", "yx", 0), ("max", "xy", 0),
                           ("min", "yx", 1), ("mean", "yx", -1)],
      thorough=[(s, i, g) for s in ("mean", "max", "min")
                for i in ("xy", "yx") for g in (0, 1, -1)],
      budget=100, bounds="any rectangle, rotation up to about 14 degrees"),
    H("wrong", wrong, quick=[(3,), (5,)], thorough=[(1,), (2,), (3,), (5,),
                                                    (8,)],
      bounds="wrong numbers of points"),
]
ASSUMPTIONS = ["real arithmetic stands for float rounding"]
