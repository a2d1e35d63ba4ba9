"""C04 points and lines are mapped by the radial model about the centre."""
from .common import *


def line_fwd(E):
    sizes_, n, dtype = E.cfg
    post = E.load("post")
    util = E.load("util")
    xc, yc = E.real("xc", -500, 3000), E.real("yc", -500, 3000)
    cs = coefs(E, n)
    lines, pts = [], []
    for a, m in enumerate(sizes_):
        if dtype == "f":
            p = [[E.real("y%d_%d" % (a, k), -500, 3000),
                  E.real("x%d_%d" % (a, k), -500, 3000)] for k in range(m)]
        else:
            p = [[E.int("y%d_%d" % (a, k), -500, 3000),
                  E.int("x%d_%d" % (a, k), -500, 3000)] for k in range(m)]
        pts.append(p)
        lines.append(E.arr(p))
    how = E.choice("coefs", [0, 1])
    fa = E.arr(cs) if how else list(cs)
    keep, kc = E.snap(lines), E.snap(fa)
    out = post.unwarp_line_forward(lines, xc, yc, fa)
    E.check(len(out) == len(lines), "one output line per line")
    for p, o in zip(pts, out):
        E.shape_is(o, (len(p), 2), "one output point per point")
        for k, (y, x) in enumerate(p):
            xu, yu = radial(E, x, y, xc, yc, cs)
            E.eq(o[k, 0], yu, "mapped y")
            E.eq(o[k, 1], xu, "mapped x")
            a, b = util.find_point_to_point((y, x), xc, yc, fa)
            E.eq(a, o[k, 1], "point and line mapping agree (x)")
            E.eq(b, o[k, 0], "point and line mapping agree (y)")
    E.unchanged(lines, keep, "lines untouched")
    E.unchanged(fa, kc, "coefficients untouched")


def point(E):
    n, = E.cfg
    util = E.load("util")
    xc, yc = E.real("xc", -500, 3000), E.real("yc", -500, 3000)
    cs = coefs(E, n)
    y, x = E.real("y", -500, 3000), E.real("x", -500, 3000)
    how = E.choice("coefs", [0, 1])
    fa = E.arr(cs) if how else list(cs)
    frm = E.choice("form", [0, 1, 2])
    p = [(y, x), [y, x], E.arr([y, x])][frm]
    od = E.choice("order", [None, "xy", "yx"])
    out = util.find_point_to_point(p, xc, yc, fa) if od is None else \
        util.find_point_to_point(p, xc, yc, fa, output_order=od)
    E.check(len(out) == 2, "a pair")
    xu, yu = radial(E, x, y, xc, yc, cs)
    want = (yu, xu) if od == "yx" else (xu, yu)
    E.eq(out[0], want[0], "first coordinate")
    E.eq(out[1], want[1], "second coordinate")


def centre(E):
    """the centre is a fixed point; a unit model is the identity"""
    n, = E.cfg
    post = E.load("post")
    util = E.load("util")
    xc, yc = E.real("xc", -500, 3000), E.real("yc", -500, 3000)
    cs = coefs(E, n)
    y, x = E.real("y", -500, 3000), E.real("x", -500, 3000)
    out = post.unwarp_line_forward([E.arr([[yc, xc], [y, x]])], xc, yc, cs)
    E.eq(out[0][0, 0], yc, "centre fixed")
    E.eq(out[0][0, 1], xc, "centre fixed")
    a, b = util.find_point_to_point((yc, xc), xc, yc, cs)
    E.eq(a, xc, "centre fixed")
    E.eq(b, yc, "centre fixed")
    one = [1] + [0] * (n - 1)
    out = post.unwarp_line_forward([E.arr([[y, x]])], xc, yc,
                                   [float(v) for v in one])
    E.eq(out[0][0, 0], y, "unit model is the identity")
    E.eq(out[0][0, 1], x, "unit model is the identity")


HARNESSES = [
    H("line_fwd", line_fwd, quick=[((2, 1), 3, "f"), ((1,), 5, "f"),
                                   ((2,), 2, "i"), ((3, 2, 1), 1, "f"), ((1,), 8, "f"), ((14,), 2, "f")],
      thorough=[(s, n, t) for s in ((1,), (2, 1), (3, 2, 1), (0, 2))
                for n in (1, 2, 3, 4, 5, 6, 8) for t in "fi"],
      bounds="up to 3 lines of up to 3 points, 1-8 coefficients in [-2,2]"),
    H("point", point, quick=[(1,), (3,), (5,), (8,)],
      thorough=[(n,) for n in range(1, 9)],
      bounds="1-8 coefficients, any point and centre in [-500,3000]^2"),
    H("centre", centre, quick=[(3,)], thorough=[(n,) for n in range(1, 7)],
      bounds="as point"),
]
ASSUMPTIONS = ["real arithmetic stands for float rounding"]
