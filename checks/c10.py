"""C10 regenerated grid points are the intersections of the fitted lines."""
from .common import *


def check_grid(E, out, nh, nv):
    hor, ver = out
    E.shape_is(hor, (nh, nv, 2), "horizontal lines x vertical lines")
    E.shape_is(ver, (nv, nh, 2), "vertical lines x horizontal lines")
    for i in range(nh):
        for j in range(nv):
            for k in range(2):
                E.eq(hor[i, j, k], ver[j, i, k], "same point in both lists")


def linear(E):
    """least-squares lines through arbitrary dots"""
    nh, nv, n = E.cfg
    proc = E.load("proc")
    t = [0, 100, 170, 300][:n]
    hor, ver, fh, fv = [], [], [], []
    for i in range(nh):
        v = [100 * i + E.real("h%d_%d" % (i, k), -20, 20) for k in range(n)]
        hor.append(E.arr([[q, p] for p, q in zip(t, v)]))
        fh.append(line_fit(E, t, v))
    for i in range(nv):
        v = [100 * i + E.real("v%d_%d" % (i, k), -20, 20) for k in range(n)]
        ver.append(E.arr([[p, q] for p, q in zip(t, v)]))
        fv.append(line_fit(E, t, v))
    keep = E.snap([hor, ver])
    out = proc.regenerate_grid_points_linear(hor, ver)
    check_grid(E, out, nh, nv)
    for i in range(nh):
        for j in range(nv):
            y, x = out[0][i, j, 0], out[0][i, j, 1]
            E.eq(y, fh[i][0] * x + fh[i][1], "on the horizontal line",
                 E.q("0.02"))
            E.eq(x, fv[j][0] * y + fv[j][1], "on the vertical line",
                 E.q("0.02"))
    E.unchanged([hor, ver], keep, "lines untouched")


def coef(E):
    """lines given by their coefficients"""
    nh, nv = E.cfg
    proc = E.load("proc")
    fh = [[E.real("ah%d" % i, -E.q("0.5"), E.q("0.5")),
           E.real("bh%d" % i, -900, 900)] for i in range(nh)]
    fv = [[E.real("av%d" % i, -E.q("0.5"), E.q("0.5")),
           E.real("bv%d" % i, -900, 900)] for i in range(nv)]
    a, b = E.arr(fh), E.arr(fv)
    keep = E.snap([a, b])
    out = proc.regenerate_grid_points_linear(a, b, is_coef=True)
    check_grid(E, out, nh, nv)
    for i in range(nh):
        for j in range(nv):
            y, x = out[0][i, j, 0], out[0][i, j, 1]
            E.eq(y, fh[i][0] * x + fh[i][1], "on the horizontal line",
                 E.q("0.02"))
            E.eq(x, fv[j][0] * y + fv[j][1], "on the vertical line",
                 E.q("0.02"))
    E.unchanged([a, b], keep, "coefficients untouched")


def parabola(E):
    """parabolas through the dots of each line, any centre"""
    nh, nv, centre = E.cfg
    proc = E.load("proc")
    q = E.q
    xc, yc = E.real("xc", 20, 300), E.real("yc", 20, 300)
    if centre:
        E.patch(proc, "find_cod_bailey", lambda *a, **k: (xc, yc))
    t = [0, 100, 200, 300]
    ch = [(E.real("ah%d" % i, -q("2e-4"), q("2e-4")),
           E.real("bh%d" % i, -q("0.1"), q("0.1")),
           100 * i + E.real("ch%d" % i, 0, 50)) for i in range(nh)]
    cv = [(E.real("av%d" % i, -q("2e-4"), q("2e-4")),
           E.real("bv%d" % i, -q("0.1"), q("0.1")),
           100 * i + E.real("cv%d" % i, 0, 50)) for i in range(nv)]
    hor, ver = grid(E, [parab(*c) for c in ch], [parab(*c) for c in cv],
                    t, t)
    keep = E.snap([hor, ver])
    if centre:
        out = proc.regenerate_grid_points_parabola(hor, ver,
                                                   find_center=True)
    else:
        out = proc.regenerate_grid_points_parabola(hor, ver)
    check_grid(E, out, nh, nv)
    for i in range(nh):
        for j in range(nv):
            y, x = out[0][i, j, 0], out[0][i, j, 1]
            E.eq(y, parab(*ch[i])(x), "on the horizontal parabola",
                 q("0.02"))
            E.eq(x, parab(*cv[j])(y), "on the vertical parabola", q("0.02"))
    E.unchanged([hor, ver], keep, "lines untouched")


def upright(E):
    """perspective=True: lines get the common direction and spacing"""
    nh, nv, kind = E.cfg
    proc = E.load("proc")
    q = E.q
    xc, yc = E.real("xc", 150, 250), E.real("yc", 150, 250)
    E.patch(proc, "find_cod_bailey", lambda *a, **k: (xc, yc))
    t = [0, 100, 200, 400]
    b0 = E.real("tilt", -q("0.05"), q("0.05"))
    dh = E.real("dh", 60, 100)
    dv = dh if kind != "spacing" else E.real("dv", 60, 100)
    ph = pv = 0
    if kind == "perspective":
        ph, pv = q("1/1024"), q("-1/2048")
    k = q("1/1000000")
    oh, ov = q("0.4"), q("0.55")
    ch = [(-k * (i - nh // 2 + oh) * 80, 0, (i - nh // 2 + oh) * dh)
          for i in range(nh)]
    cv = [(-k * (i - nv // 2 + ov) * 80, 0, (i - nv // 2 + ov) * dv)
          for i in range(nv)]
    ch = [(a, b0 + ph * c, c) for a, _, c in ch]
    cv = [(a, -(b0 + pv * c), c) for a, _, c in cv]

    def at(f, m):
        return lambda x: parab(*f)(x - m)
    hor = [E.arr([[at(f, xc)(x) + yc, x] for x in t]) for f in ch]
    ver = [E.arr([[y, at(f, yc)(y) + xc] for y in t]) for f in cv]
    keep = E.snap([hor, ver])
    out = proc.regenerate_grid_points_parabola(hor, ver, perspective=True)
    check_grid(E, out, nh, nv)
    big = dh if dh > dv else dv
    sh, sv = big / dh, big / dv
    for i in range(nh):
        for j in range(nv):
            y, x = out[0][i, j, 0] - yc, out[0][i, j, 1] - xc
            E.eq(y, sh * ch[i][0] * x * x + b0 * x + (i - nh // 2 + oh) * big,
                 "on the horizontal line without perspective", q("0.03"))
            E.eq(x, sv * cv[j][0] * y * y - b0 * y + (j - nv // 2 + ov) * big,
                 "on the vertical line without perspective", q("0.03"))
    E.unchanged([hor, ver], keep, "lines untouched")


HARNESSES = [
    H("upright", upright, quick=[(4, 4, "plain"), (4, 4, "spacing"),
                                 (4, 5, "perspective")],
      thorough=[(6, 5, "spacing"), (7, 4, "perspective")], budget=90,
      bounds="4-7 lines per direction, any tilt, spacing and centre; slopes "
             "proportional to the offset for two perspectives"),
    H("linear", linear, quick=[(2, 2, 2), (1, 3, 3), (3, 2, 3), (1, 1, 4)],
      thorough=[(a, b, n) for a in (1, 2, 3) for b in (1, 2, 3)
                for n in (2, 3, 4)], budget=60,
      bounds="up to 3x3 lines, up to 4 dots each at fixed abscissas, dots "
             "within 20 pixels of straight"),
    H("coef", coef, quick=[(2, 2), (1, 3), (3, 1)],
      thorough=[(a, b) for a in (1, 2, 3, 4) for b in (1, 2, 3, 4)],
      bounds="up to 4x4 lines, slopes up to 0.5"),
    H("parabola", parabola, quick=[(1, 1, False), (2, 2, False),
                                   (1, 2, True), (2, 1, True)],
      thorough=[(a, b, c) for a in (1, 2, 3) for b in (1, 2, 3)
                for c in (False, True)], budget=60,
      bounds="up to 3x3 lines of 4 dots, curvature up to 2e-4, slope up to "
             "0.1; with the centre option the located centre is arbitrary"),
]
ASSUMPTIONS = ["real arithmetic stands for float rounding",
               "numpy.polyfit is the exact least-squares fit; "
               "scipy.optimize.fsolve returns a root"]
