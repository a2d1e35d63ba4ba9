"""C11 the undistorted version of a perspective grid is a regular grid."""
from .common import *


def quad_hook(E):
    """contract of the minimiser on a quadratic objective: its vertex"""
    def f(rc):
        x = rc["x"]

        def at(d):
            v = rc["fun"](x + d, *rc["args"])
            return v.reshape((-1,))[0] if hasattr(v, "reshape") else v
        E.add(E.And(at(1) == at(-1)))
    if E.sym:
        E.state["minimize_hook"] = f


def lines(E, nh, nv, sl):
    q = E.q
    t = [0, 100, 250]
    s = q(sl)
    hor = [(E.real("ah%d" % i, -s, s), 100 * i + E.real("bh%d" % i, 0, 30))
           for i in range(nh)]
    ver = [(E.real("av%d" % i, -s, s), 120 * i + E.real("bv%d" % i, 0, 30))
           for i in range(nv)]
    a, b = grid(E, [linf(*c) for c in hor], [linf(*c) for c in ver], t, t)
    return hor, ver, a, b


def regular(E, p, nh, nv, equal, label=""):
    """p[i][j] = p0 + i*u + j*v with u and v orthogonal"""
    P = [[(p[i, j, 0], p[i, j, 1]) for j in range(nv)] for i in range(nh)]
    u = (P[1][0][0] - P[0][0][0], P[1][0][1] - P[0][0][1])
    v = (P[0][1][0] - P[0][0][0], P[0][1][1] - P[0][0][1])
    for i in range(nh):
        for j in range(nv):
            for k in range(2):
                E.eq(P[i][j][k], P[0][0][k] + i * u[k] + j * v[k],
                     label + "regular grid", E.q("0.05"))
    E.eq((u[0] * v[0] + u[1] * v[1]) / 1000, 0,
         label + "orthogonal directions", E.q("0.01"))
    if equal:
        E.eq((u[0] * u[0] + u[1] * u[1] - v[0] * v[0] - v[1] * v[1]) / 1000,
             0, label + "same spacing in both directions", E.q("0.02"))
    E.check(u[0] > 0, label + "rows in the given order")
    E.check(v[1] > 0, label + "columns in the given order")


def scl(s):
    return {"kw": {}} if s is None else {"kw": {"scale": s}}


def undistort(E):
    nh, nv, equal, scale, opt = E.cfg
    proc = E.load("proc")
    fh, fv, hor, ver = lines(E, nh, nv, "0.05")
    keep = E.snap([hor, ver])
    quad_hook(E)
    E.state["name_fit"] = 4
    kw = {}
    if equal is not None:
        kw["equal_dist"] = equal
    if scale is not None:
        kw["scale"] = scale
    if opt is not None:
        kw["optimizing"] = opt
    # common direction: where the two slope trends meet; keep it away from
    # the degenerate trends the tolerance 1e-4 is there for
    out = proc.generate_undistorted_perspective_lines(hor, ver, **kw)
    a, b = out
    E.shape_is(a, (nh, nv, 2), "horizontal lines")
    E.shape_is(b, (nv, nh, 2), "vertical lines")
    for i in range(nh):
        for j in range(nv):
            for k in range(2):
                E.eq(a[i, j, k], b[j, i, k], "same point in both lists")
    # spacing between the intercepts
    spacing(E, a, nh, nv, fh, fv, equal is not False, scale,
            opt is not False)
    E.unchanged([hor, ver], keep, "lines untouched")


def med(E, v):
    if len(v) == 2:
        return (v[0] + v[1]) / 2
    v = sorted(v) if not E.sym else _sorted(v)
    n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


def _sorted(v):
    v = list(v)
    for i in range(len(v)):
        for j in range(len(v) - 1 - i):
            if v[j] > v[j + 1]:
                v[j], v[j + 1] = v[j + 1], v[j]
    return v


def spacing(E, p, nh, nv, fh, fv, equal, scale, opt):
    """intercept spacing prescribed by the options, anchored at the middle
    line of each direction"""
    ph, pv = nh // 2, nv // 2
    nu = min(max(nh // 2 - 1, 1), max(nv // 2 - 1, 1))
    ch, cv = [c for _, c in fh], [c for _, c in fv]

    def dist(c, pos, n):
        if opt:
            num = sum((i - pos) * (c[i] - c[pos]) for i in range(n))
            return num / E.q(sum((i - pos) ** 2 for i in range(n)))
        use = c[max(0, pos - nu):min(n, pos + nu + 1)]
        d = [E.abs(y - x) for x, y in zip(use, use[1:])]
        if scale == "max":
            return E.max(d)
        if scale == "min":
            return E.min(d)
        if scale == "median":
            return med(E, d)
        m = sum(d) / E.q(len(d))
        return m * scale if isinstance(scale, float) else m
    dh, dv = dist(ch, ph, nh), dist(cv, pv, nv)
    if equal:
        if scale == "max":
            dh = dv = E.max(dh, dv)
        elif scale == "min":
            dh = dv = E.min(dh, dv)
        else:
            dh = dv = (dh + dv) / 2
    # direction a0 recovered from the result: rows of the grid
    u = (p[0, nv - 1, 0] - p[0, 0, 0], p[0, nv - 1, 1] - p[0, 0, 1])
    E.assume(u[1] > 1)
    a0 = u[0] / u[1]
    for i in range(nh):
        for j in range(nv):
            y, x = p[i, j, 0], p[i, j, 1]
            E.eq(y, a0 * x + ch[ph] + (i - ph) * dh,
                 "rows: parallel, equally spaced about the middle row",
                 E.q("0.05"))
            E.eq(x, -a0 * y + cv[pv] + (j - pv) * dv,
                 "columns: orthogonal, equally spaced about the middle "
                 "column", E.q("0.05"))


def fixed(E):
    """a regular (rotated) grid is already undistorted"""
    nh, nv, scale, opt = E.cfg
    proc = E.load("proc")
    q = E.q
    a = E.real("tilt", -q("0.2"), q("0.2"))
    d = E.real("pitch", 20, 90)
    b0, b1 = E.real("b0", 0, 100), E.real("b1", 0, 100)
    t = [0, 100, 250]
    hor, ver = grid(E, [linf(a, b0 + d * i) for i in range(nh)],
                    [linf(-a, b1 + d * i) for i in range(nv)], t, t)
    quad_hook(E)
    kw = {} if scale is None else {"scale": scale}
    if opt is not None:
        kw["optimizing"] = opt
    s, g = proc.generate_source_target_perspective_points(hor, ver, **kw)
    E.shape_is(s, (nh * nv, 2), "all source points")
    E.shape_is(g, (nh * nv, 2), "all target points")
    for k in range(nh * nv):
        i, j = k // nv, k % nv
        y = (a * (b1 + d * j) + b0 + d * i) / (1 + a * a)
        x = -a * y + b1 + d * j
        E.eq(s[k, 0], y, "source points row by row (y)", q("0.02"))
        E.eq(s[k, 1], x, "source points row by row (x)", q("0.02"))
        E.eq(g[k, 0], y, "a regular grid is its own target (y)", q("0.05"))
        E.eq(g[k, 1], x, "a regular grid is its own target (x)", q("0.05"))


def pairs(E):
    """options reach the targets; targets in the order of the sources"""
    nh, nv, equal, scale, opt = E.cfg
    proc = E.load("proc")
    t = [0, 100, 250]
    fh = [(0, 100 * i + E.real("bh%d" % i, 0, 30)) for i in range(nh)]
    fv = [(0, 130 * i + E.real("bv%d" % i, 0, 30)) for i in range(nv)]
    hor, ver = grid(E, [linf(*c) for c in fh], [linf(*c) for c in fv], t, t)
    keep = E.snap([hor, ver])
    quad_hook(E)
    kw = {"equal_dist": equal, "scale": scale, "optimizing": opt}
    kw = {k: v for k, v in kw.items() if v is not None}
    s, g = proc.generate_source_target_perspective_points(hor, ver, **kw)
    E.shape_is(s, (nh * nv, 2), "all source points")
    E.shape_is(g, (nh * nv, 2), "all target points")
    for k in range(nh * nv):
        E.eq(s[k, 0], fh[k // nv][1], "source points row by row (y)",
             E.q("0.02"))
        E.eq(s[k, 1], fv[k % nv][1], "source points row by row (x)",
             E.q("0.02"))
    spacing(E, g.reshape((nh, nv, 2)), nh, nv, fh, fv, equal is not False,
            scale, opt is not False)
    E.unchanged([hor, ver], keep, "lines untouched")


def trend(E):
    """slopes changing linearly with the position: the direction of the
    target is the one both trends share"""
    nh, nv, p, r, opt = E.cfg
    proc = E.load("proc")
    q = E.q
    a0 = E.real("tilt", -q("0.05"), q("0.05"))
    d, o = E.real("pitch", 40, 90), E.real("offset", -40, 40)
    bh = [o + d * i + (3 if i == 1 else 0) for i in range(nh)]
    bv = [d * i - 20 for i in range(nv)]
    fh = [(a0 + q(p) * b, b) for b in bh]
    fv = [(-(a0 + q(r) * b), b) for b in bv]
    t = [0, 100, 250]
    hor, ver = grid(E, [linf(*c) for c in fh], [linf(*c) for c in fv], t, t)
    quad_hook(E)
    a, b = proc.generate_undistorted_perspective_lines(hor, ver,
                                                       optimizing=opt)
    E.shape_is(a, (nh, nv, 2), "horizontal lines")
    for i in range(nh):
        dy = a[i, nv - 1, 0] - a[i, 0, 0]
        dx = a[i, nv - 1, 1] - a[i, 0, 1]
        E.check(dx > 10, "columns in the given order")
        E.eq(dy, a0 * dx, "direction common to rows and columns", q("0.05"))
    spacing(E, a, nh, nv, fh, fv, True, None, opt)


HARNESSES = [
    H("trend", trend,
      quick=[(3, 3, "1/2000", "-1/3000", False), (2, 3, "-1/1500", 0, True),
             (3, 2, "1/4000", "1/4000", False)],
      budget=60, bounds="2-3 lines per direction, any tilt and pitch, given "
                        "perspectives"),
    H("pairs", pairs,
      quick=[(3, 3, True, "max", False), (2, 3, False, "min", False),
             (2, 2, False, 1.5, False), (2, 3, None, None, None),
             (3, 4, False, "median", False)],
      budget=60, bounds="2-4 axis-aligned lines per direction at any "
                        "positions within 30 pixels of regular"),
    H("undistort", undistort,
      quick=[(2, 2, None, None, None), (3, 2, True, "max", False),
             (2, 3, True, "min", False), (3, 3, False, "median", False),
             (2, 2, False, 1.5, False), (3, 3, True, None, True),
             (4, 3, None, "mean", False)],
      thorough=[(a, b, e, s, o) for a, b in ((2, 2), (3, 2), (3, 4), (5, 4))
                for e in (True, False)
                for s in ("mean", "median", "min", "max", 0.75)
                for o in (True, False)], budget=100,
      bounds="2-5 lines per direction, slopes up to 0.05, free intercepts "
             "within 30 pixels of regular"),
    H("fixed", fixed,
      quick=[(2, 2, None, None), (3, 2, "max", False), (2, 3, "min", True),
             (3, 3, "median", False), (4, 3, "mean", False), (6, 6, "median", False)],
      thorough=[(a, b, s, o) for a, b in ((2, 2), (3, 2), (3, 4), (4, 3))
                for s in ("mean", "median", "min", "max")
                for o in (True, False)], budget=100,
      bounds="2-4 lines per direction, any tilt up to 0.2, any pitch"),
]
ASSUMPTIONS = ["real arithmetic stands for float rounding",
               "the minimiser returns the vertex of its quadratic objective"]
