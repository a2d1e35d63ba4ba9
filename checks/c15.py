"""C15 the centre of distortion: coarse estimate and regression."""
from .common import *

TS = [-50, 600, 1100]


def curves(E, nm, n, flip, sign, free, what="abc"):
    """n lines (a, b, c), curvature changing sign after line `flip`"""
    q = E.q
    out = []
    for i in range(n):
        s = sign if i <= flip else -sign
        if i in free:
            a = E.real("a%s%d" % (nm, i), q("1e-6"), q("1e-4")) \
                if "a" in what else q("4e-5")
            b = E.real("b%s%d" % (nm, i), -q("0.1"), q("0.1")) \
                if "b" in what else q("-0.01")
            c = 100 * i + (E.real("c%s%d" % (nm, i), -20, 20)
                           if "c" in what else q(5))
        else:
            a, b, c = q("3e-5") + q(i) / 10 ** 6, q("0.02"), q(100 * i + 3)
        out.append((s * a, b, c))
    return out


def dots(E, ch, cv, ts):
    hor = [E.arr([[parab(*c)(t), t] for t in ts]) for c in ch]
    ver = [E.arr([[t, parab(*c)(t)] for t in ts]) for c in cv]
    return hor, ver


def coarse(E):
    """intersection of the two mean lines next to the change of curvature"""
    nh, nv, ph, pv, sg, ts = E.cfg
    proc = E.load("proc")
    al = range(max(nh, nv))
    ch, cv = curves(E, "h", nh, ph, sg, al), curves(E, "v", nv, pv, -sg, al)
    hor, ver = dots(E, ch, cv, ts)
    keep = E.snap([hor, ver])
    x, y = proc.find_cod_coarse(hor, ver)
    h = E.q("0.5")
    sh, y0 = [(ch[ph][k] + ch[ph + 1][k]) * h for k in (1, 2)]
    sv, x0 = [(cv[pv][k] + cv[pv + 1][k]) * h for k in (1, 2)]
    E.eq(y, sh * x + y0, "on the mean horizontal line", E.q("0.05"))
    E.eq(x, sv * y + x0, "on the mean vertical line", E.q("0.05"))
    E.unchanged([hor, ver], keep, "lines untouched")


def symmetric(E):
    """dots placed symmetrically about a centre: it is returned exactly"""
    nh, nv, which = E.cfg
    proc = E.load("proc")
    q = E.q
    xc, yc = E.real("xc", 400, 700), E.real("yc", 400, 700)
    d, k = E.real("pitch", 50, 120), E.real("k", q("1e-7"), q("1e-6"))
    b = E.real("tilt", -q("0.02"), q("0.02"))
    sg = E.choice("sign", [1, -1])

    def co(n):
        p = [(2 * i - (n - 1)) * q("0.5") for i in range(n)]
        return [(sg * k * d * v, d * v) for v in p]
    ts = [-400, 0, 450]
    hor = [E.arr([[yc + a * t * t + b * t + c, xc + t] for t in ts])
           for a, c in co(nh)]
    ver = [E.arr([[yc + t, xc + a * t * t - b * t + c] for t in ts])
           for a, c in co(nv)]
    if which == "coarse":
        x, y = proc.find_cod_coarse(hor, ver)
    else:
        x, y = proc.find_cod_bailey(hor, ver, iteration=which)
    E.eq(x, xc, "x of the centre", q("0.1"))
    E.eq(y, yc, "y of the centre", q("0.1"))


def proportional(E):
    """curvature proportional to the offset from the centre, offsets free in
    one direction: the regression finds the centre"""
    n, m, axis, it = E.cfg
    proc = E.load("proc")
    q = E.q
    xc, yc = E.real("xc", 400, 700), E.real("yc", 400, 700)
    k = E.real("k", q("1e-7"), q("8e-7"))
    f = [100 * i - 50 * (n - 1) + (E.real("c%d" % i, -20, 20)
                                   if i in (0, n // 2) else 7)
         for i in range(n)]
    g = [100 * i - 50 * (m - 1) for i in range(m)]
    ts = [-400, 0, 450]
    h, v = (f, g) if axis == 0 else (g, f)
    hor = [E.arr([[yc + k * c * t * t + c, xc + t] for t in ts]) for c in h]
    ver = [E.arr([[yc + t, xc + k * c * t * t + c] for t in ts]) for c in v]
    kw = {} if it is None else {"iteration": it}
    x, y = proc.find_cod_bailey(hor, ver, **kw)
    E.eq(x, xc, "x of the centre", q("0.1"))
    E.eq(y, yc, "y of the centre", q("0.1"))


def step(E):
    """each iteration moves to the zero of the curvature regression"""
    nh, nv, fr, what, its = E.cfg
    proc = E.load("proc")
    ch, cv = (curves(E, "h", nh, nh // 2 - 1, 1, fr, what),
              curves(E, "v", nv, nv // 2 - 1, 1, fr, what))
    hor, ver = dots(E, ch, cv, TS)
    pt = proc.find_cod_coarse(hor, ver)
    for it in range(its):
        x, y = pt
        nx, ny = proc.find_cod_bailey(hor, ver, iteration=it)

        def zero(co, u):
            # (intercept about the centre, curvature) of every line
            w = [parab(*c)(u) for c in co]
            a, b = line_fit(E, w, [c[0] for c in co])
            return a, b
        a, b = zero(ch, x)
        E.eq(ny, -b / a, "zero of the horizontal regression", E.q("0.1"))
        a, b = zero(cv, y)
        E.eq(nx, -b / a, "zero of the vertical regression", E.q("0.1"))
        pt = nx, ny


def fine(E):
    """a radially distorted regular grid placed anywhere: the search around a
    start value ends within half a pixel of the centre"""
    n, coef, tilt, off, pd = E.cfg
    proc = E.load("proc")
    import math
    tx, ty = E.real("tx", 300, 900), E.real("ty", 300, 900)
    sx, sy = E.q(off[0]), E.q(off[1])

    def warp(x, y):
        c, s = math.cos(tilt), math.sin(tilt)
        x, y = c * x - s * y, s * x + c * y
        r = math.hypot(x, y)
        f = 1.0 + coef * r * r
        # exact binary fractions, so that both engines see the same dots
        return (E.q(round(y * f * 4096)) / 4096,
                E.q(round(x * f * 4096)) / 4096)
    p = [60.0 * (i - (n - 1) / 2) + 7 for i in range(n)]
    hor = [[warp(x, y) for x in p] for y in p]
    ver = [[warp(x, y) for y in p] for x in p]
    hor = [E.arr([[ty + y, tx + x] for y, x in ln]) for ln in hor]
    ver = [E.arr([[ty + y, tx + x] for y, x in ln]) for ln in ver]
    keep = E.snap([hor, ver])
    x, y = proc.find_cod_fine(hor, ver, tx + sx, ty + sy, pd)
    E.check(E.abs(x - tx) <= E.q("0.76"), "x of the centre")
    E.check(E.abs(y - ty) <= E.q("0.76"), "y of the centre")
    E.unchanged([hor, ver], keep, "lines untouched")


HARNESSES = [
    H("fine", fine,
      quick=[(6, 2e-7, 0.0, ("3.5", "-2.5"), 4),
             (5, -2e-7, 0.02, ("-5", "4"), 6)],
      thorough=[(n, c, t, o, 8) for n in (5, 6, 9) for c in (3e-7, -2e-7)
                for t in (0.0, 0.02, -0.03)
                for o in (("-7", "6"), ("3.5", "-2.5"), ("0", "0"))],
      budget=200, bounds="square grids of 5-9 lines with fixed distortion, "
                         "tilt and start offset; free position of the grid"),

    H("proportional", proportional,
      quick=[(4, 4, 0, 0), (5, 4, 1, 1), (6, 2, 0, None)],
      thorough=[(n, m, a, i) for n, m in ((4, 4), (5, 6), (7, 2))
                for a in (0, 1) for i in (0, 1, 2, None)], budget=90,
      bounds="4-7 lines in the free direction, 2-6 in the other; free "
             "centre, strength and two offsets"),
    H("step", step,
      quick=[(4, 4, (0,), "c", 1), (4, 5, (3,), "a", 1),
             (6, 4, (0, 5), "c", 1), (4, 4, (3,), "c", 2),
             (4, 4, (0,), "b", 2), (4, 4, (0,), "a", 2)],
      thorough=[(a, b, f, w, i) for a, b in ((4, 4), (5, 4), (6, 6))
                for f in ((0,), (3,), (0, 5)) for w in ("a", "b", "c")
                for i in (1, 2)],
      budget=120, bounds="4-6 lines per direction, one or two outer lines "
                         "free"),

    H("coarse", coarse,
      quick=[(2, 2, 0, 0, 1, TS), (3, 4, 1, 0, -1, TS),
             (5, 4, 2, 2, 1, TS), (6, 7, 0, 5, -1, [0, 10, 900])],
      thorough=[(nh, nv, ph, pv, s, TS) for nh, nv in ((2, 3), (4, 4), (6, 5))
                for ph in range(nh - 1) for pv in range(nv - 1)
                for s in (1, -1)], budget=60,
      bounds="2-7 lines per direction with free curvature (of known sign), "
             "slope and intercept; 3 dots per line"),
    H("symmetric", symmetric,
      quick=[(4, 4, "coarse"), (4, 2, 0), (2, 4, 1)],
      thorough=[(a, b, w) for a, b in ((2, 2), (4, 4), (6, 8), (8, 4))
                for w in ("coarse", 0, 1, 2, 3)], budget=90,
      bounds="2-8 lines per direction, free centre, pitch, distortion "
             "strength and tilt"),
]
ASSUMPTIONS = ["real arithmetic stands for float rounding",
               "numpy.polyfit returns the exact least-squares solution"]
