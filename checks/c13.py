"""C13 radial coefficients solve the least-squares system of the dots."""
from .common import *

BASES = {"mid": [-130, -30, 70, 170], "mid5": [-230, -110, -20, 95, 210],
         "first": [25, 125, 225, 325], "last": [-325, -225, -125, -25],
         "zero": [-200, -100, 0, 100, 200],
         "down": [210, 95, -20, -110, -230],
         "six": [-260, -160, -60, 40, 140, 240],
         "nine": [-390, -290, -190, -90, 10, 110, 210, 310, 410]}


def lines(E, hb, vb, ts, free, straight=False, strong=False, scale=1):
    q = E.q
    xc, yc = E.real("xc", 200, 900), E.real("yc", 200, 900)
    co = []
    for nm, bs in (("h", hb), ("v", vb)):
        cs = []
        for i, b in enumerate(BASES[bs]):
            b = b * scale
            if i in free:
                am = q("3e-3") if strong else q("1e-4") / scale
                a = 0 if straight else E.real("a%s%d" % (nm, i), -am, am)
                s = E.real("b%s%d" % (nm, i), -q("0.05"), q("0.05"))
                c = b + E.real("c%s%d" % (nm, i), -4 * scale, 4 * scale)
                for t in ts:      # neither zero nor infinite ratios
                    E.assume(E.Or(a * t * t + c > q("0.05"),
                                  a * t * t + c < -q("0.05")))
            else:
                a = 0 if straight else \
                    q("1e-5") * (b // 10) / (scale * scale)
                s = q("0.01")
                c = b + q((i * 7) % 4) / 2
            cs.append((a, s, c))
        co.append(cs)
    hor = [E.arr([[yc + parab(*c)(t), xc + t] for t in ts]) for c in co[0]]
    ver = [E.arr([[yc + t, xc + parab(*c)(t)] for t in ts]) for c in co[1]]
    return xc, yc, co[0], co[1], hor, ver


def intercepts(E, co, num_use, opt):
    c = [v[2] for v in co]
    n = len(c)
    # position of the line nearest to the centre (decided by the bases)
    p = min(range(n), key=lambda i: abs(float(c[i])) if not E.sym else
            abs(_base(E, c[i])))
    sg = [(-1 if (float(v) if not E.sym else _base(E, v)) < 0 else 1)
          for v in c]
    lo, hi = max(0, p - num_use), min(n, p + num_use + 1)
    if opt:
        num = sum(sg[i] * abs(i - p) * (c[i] - c[p]) for i in range(n))
        d = num / E.q(sum((i - p) ** 2 for i in range(n)))
    else:
        d = sum(E.abs(c[i + 1] - c[i]) for i in range(lo, hi - 1)) / E.q(
            hi - 1 - lo)
    return [sg[i] * abs(i - p) * d + c[p] for i in range(n)]


def vertex_hook(E):
    """contract of the minimiser on a quadratic objective: its vertex"""
    def f(rc):
        def at(d):
            v = rc["fun"](E.arr([E.q(d)]), *rc["args"])
            return v.reshape((-1,))[0] if hasattr(v, "reshape") else v
        m, z, p = at(-1), at(0), at(1)
        den = 2 * (p + m - 2 * z)
        return [(m - p) / den]
    if E.sym:
        E.state["minimize_hook"] = f


def _base(E, v):
    """constant part of base + perturbation"""
    if not hasattr(v, "n"):
        return float(v)
    return float(v.n.t.get((), 0))


def system(E, kind, co_h, co_v, ts, k, opt):
    nu = min(3, len(co_h) // 2 - 1, len(co_v) // 2 - 1)
    rows, rhs = [], []
    for co in (co_h, co_v):
        U = intercepts(E, co, nu, opt)
        for (a, s, c), u in zip(co, U):
            for t in ts:
                w = a * t * t + s * t + c
                rd = E.sqrt(t * t + w * w)
                f = (a * t * t + c) / u
                if kind == "backward":
                    rows.append([(rd / f) ** e if e else 1
                                 for e in range(k)])
                    rhs.append(f)
                else:
                    rows.append([rd ** e if e else 1 for e in range(k)])
                    rhs.append(1 / f)
    return rows, rhs


def calib(E):
    kind, hb, vb, k, free, opt = E.cfg[:6]
    proc = E.load("proc")
    what = E.cfg[6] if len(E.cfg) > 6 else None
    scale = what if isinstance(what, int) else 1
    ts = [-100 * scale, 0, 120 * scale]
    xc, yc, ch, cv, hor, ver = lines(E, hb, vb, ts, free,
                                     strong=what == "strong", scale=scale)
    keep = E.snap([hor, ver])
    vertex_hook(E)
    if E.sym:
        E.state["abstract_lstsq"] = True
        if kind == "both":
            rds = [E.sqrt(t * t + parab(*c)(t) * parab(*c)(t))
                   for co in (ch, cv) for c in co for t in ts]

            def nz(A, B, x):
                if not E.state.pop("first", True):
                    return
                E.state["first"] = False
                for r in rds:
                    E.add(poly(E, x, r) != 0)
            E.state["lstsq_hook"] = nz
    f = {"forward": proc.calc_coef_forward,
         "backward": proc.calc_coef_backward,
         "both": proc.calc_coef_backward_from_forward}[kind]
    kw = {"optimizing": True} if opt else {}
    out = f(hor, ver, xc, yc, k, **kw)
    fwd = out[0] if kind == "both" else out
    rows, rhs = system(E, "backward" if kind == "backward" else "forward",
                       ch, cv, ts, k, opt)
    lsq_is(E, fwd, rows, rhs, "least-squares model of the dots")
    if kind == "both":
        rows, rhs = [], []
        for co in (ch, cv):
            for c in co:
                for t in ts:
                    w = parab(*c)(t)
                    rd = E.sqrt(t * t + w * w)
                    ff = poly(E, [fwd[e] for e in range(k)], rd)
                    if not E.sym and abs(ff) < 1e-3:
                        E.assume(False)
                    rows.append([(ff * rd) ** e if e else 1
                                 for e in range(k)])
                    rhs.append(1 / ff)
        lsq_is(E, out[1], rows, rhs, "backward model inverts the forward one")
    E.unchanged([hor, ver], keep, "lines untouched")


def identity(E):
    """a regular straight grid needs no correction"""
    kind, nh, nv, n, k = E.cfg[:5]
    proc = E.load("proc")
    q = E.q
    xc, yc = E.real("xc", 200, 900), E.real("yc", 200, 900)
    d = E.real("pitch", 40, 60)
    oh, ov = (0, 0) if E.cfg[5:] else (E.real("oh", 5, 15),
                                       E.real("ov", 5, 15))
    ts = [60 * i - 90 for i in range(n)]
    hor = [E.arr([[yc + oh + d * (i - nh // 2), xc + t] for t in ts])
           for i in range(nh)]
    ver = [E.arr([[yc + t, xc + ov + d * (i - nv // 2)] for t in ts])
           for i in range(nv)]
    f = {"forward": proc.calc_coef_forward,
         "backward": proc.calc_coef_backward,
         "both": proc.calc_coef_backward_from_forward}[kind]
    if E.sym:
        E.state["abstract_lstsq"] = True
        E.state["lstsq_hook"] = lambda A, B, x: [
            E.add(v == (0 if i else 1)) for i, v in enumerate(x)] \
            if kind == "both" else None
    out = f(hor, ver, xc, yc, k)
    res = list(out) if kind == "both" else [out]
    kk = max(k, 1)
    for r in res:
        E.check(len(r) == kk, "number of coefficients")
        if not E.sym:
            for rad in (30.0, 80.0, 140.0):
                E.eq(sum(float(c) * rad ** e for e, c in enumerate(r)), 1,
                     "unit scale", q("1e-3"))
        else:
            # (1, 0, ...) solves every equation, hence is the solution
            rc = [x for y, x in E.records if y == "lstsq" and
                  all(E.ident(a, b) for a, b in zip(x["x"], r))]
            if not rc:
                E.unsupported("no least-squares call gave the result")
            for row, b in zip(rc[-1]["A"], rc[-1]["B"]):
                E.eq(row[0], b, "unit model solves every equation")


def missing(E):
    """a missing line (twice the spacing) is warned about, none otherwise"""
    axis, n, gone, kw = E.cfg
    proc = E.load("proc")
    xc, yc = E.real("xc", 200, 900), E.real("yc", 200, 900)
    d = E.real("pitch", 30, 60)
    o = E.real("o", 5, 15)
    ts = [-100, 0, 120]
    al = [i for i in range(n) if not (axis == "hor" and i in gone)]
    bl = [i for i in range(n) if not (axis == "ver" and i in gone)]
    hor = [E.arr([[yc + o + d * (i - n // 2), xc + t] for t in ts])
           for i in al]
    ver = [E.arr([[yc + t, xc + o + d * (i - n // 2)] for t in ts])
           for i in bl]
    said = []

    class W:
        def __getattr__(self, k):
            import warnings
            return getattr(warnings, k)

        def warn(self, *a, **k):
            said.append(a)
    E.patch(proc, "warnings", W())
    if E.sym:
        E.state["abstract_lstsq"] = True
    for f in (proc.calc_coef_forward, proc.calc_coef_backward):
        del said[:]
        f(hor, ver, xc, yc, 2, **kw)
        th = kw.get("threshold", 0.3)
        E.check(bool(said) == bool(gone and th < 0.6),
                "warned if and only if a line is missing")


HARNESSES = [
    H("missing", missing,
      quick=[("hor", 8, (), {}), ("hor", 8, (3,), {}), ("ver", 8, (4,), {}),
             ("ver", 10, (2,), {}), ("hor", 10, (6,), {}),
             ("hor", 8, (3,), {"threshold": 2.0})],
      bounds="7-10 lines in a direction, any pitch, offset and centre"),
    H("calib", calib,
      quick=[("backward", "mid", "mid", 3, (0, 1, 2, 3), False),
             ("forward", "mid", "mid", 2, (1,), False),
             ("backward", "mid", "mid", 2, (1,), False),
             ("both", "mid", "mid", 1, (2,), False),
             ("forward", "mid5", "mid", 3, (0, 3), True),
             ("backward", "first", "mid5", 3, (0,), False),
             ("backward", "last", "six", 2, (2,), True),
             ("forward", "nine", "nine", 2, (1,), False),
             ("both", "mid5", "first", 2, (1,), False),
             ("forward", "six", "last", 5, (3,), False),
             ("forward", "six", "mid5", 9, (3,), False),
             ("backward", "mid5", "six", 8, (1,), False),
             ("forward", "zero", "mid", 2, (2,), False),
             ("both", "mid", "zero", 2, (2,), False),
             ("backward", "zero", "zero", 2, (2,), False),
             ("backward", "mid", "mid5", 2, (1,), False, "strong"),
             ("forward", "mid5", "mid", 2, (1,), False, "strong"),
             ("forward", "down", "mid5", 2, (1,), False),
             ("backward", "mid5", "down", 2, (2,), True),
             ("backward", "six", "mid", 5, (0, 1), False),
             ("backward", "six", "six", 5, (1,), False, 4),
             ("forward", "six", "six", 5, (1,), False, 4),
             ("both", "six", "six", 5, (), False, 4),
             ("both", "mid5", "six", 5, (), False, 7),
             ("backward", "mid5", "six", 4, (1,), False, 12),
             ("forward", "six", "mid5", 4, (1,), False, 12)],
      thorough=[(kd, a, b, k, fr, o) for kd in ("forward", "backward", "both")
                for a, b in (("mid", "mid"), ("mid5", "first"),
                             ("last", "six"), ("six", "six"),
                             ("nine", "nine"))
                for k in (1, 3, 5) for fr in ((0,), (1, 2), (3,))
                for o in (False, True)], budget=100,
      bounds="4-9 lines per direction, 3 dots each at fixed abscissas "
             "relative to the centre; centre free, up to two lines per "
             "direction with free curvature, slope and intercept; 1-9 "
             "coefficients"),
    H("identity", identity,
      quick=[("forward", 4, 4, 3, 1), ("backward", 5, 4, 3, 1),
             ("both", 4, 5, 3, 1), ("forward", 5, 5, 3, 0),
             ("backward", 4, 4, 3, 4), ("forward", 7, 6, 4, 3),
             ("backward", 5, 5, 4, 3, 0), ("forward", 4, 5, 4, 2, 0),
             ("both", 5, 4, 4, 1, 0)],
      thorough=[(kd, a, b, 3, k) for kd in ("forward", "backward", "both")
                for a, b in ((4, 4), (5, 4), (8, 9)) for k in (0, 1, 3, 5)],
      budget=60, bounds="4-9 lines per direction, free pitch, offset and "
                        "centre"),
]
ASSUMPTIONS = ["real arithmetic stands for float rounding",
               "numpy.linalg.lstsq and numpy.polyfit return the exact "
               "least-squares solution; the minimiser the vertex of its "
               "quadratic objective"]
