"""C05 backward line unwarping finds the point which the model sends to the
given one."""
from .common import *


def hook(E, cs):
    """contract of the minimiser: it returns a non-negative root of the
    objective it is given"""
    def f(rc):
        t = rc["x"][0]
        E.add(t >= 0)
        E.add(t <= 10000)
        v = rc["fun"](rc["x"], *rc["args"])
        v = v if not hasattr(v, "reshape") else v.reshape((-1,))[0]
        E.add(E.And(v == 0))
        rc["obj"] = v
    if E.sym:
        E.state["minimize_hook"] = f


def model(E, n):
    lim = [(E.q("0.8"), E.q("1.2")), (E.q("-4e-5"), E.q("4e-5")),
           (E.q("-1e-8"), E.q("1e-8")), (E.q("-5e-12"), E.q("5e-12")),
           (E.q("-2e-15"), E.q("2e-15"))]
    return [E.real("c%d" % k, lim[k][0], lim[k][1]) for k in range(n)]


def lines_bwd(E):
    sizes_, n, dtype = E.cfg
    post = E.load("post")
    xc, yc = E.real("xc", 0, 900), E.real("yc", 0, 900)
    cs = model(E, n)
    lines, pts = [], []
    for a, m in enumerate(sizes_):
        mk = E.real if dtype == "f" else E.int
        p = [[mk("y%d_%d" % (a, k), 0, 900), mk("x%d_%d" % (a, k), 0, 900)]
             for k in range(m)]
        pts.append(p)
        lines.append(E.arr(p))
    keep, kc = E.snap(lines), E.snap(cs)
    hook(E, cs)
    if not E.sym:
        # the optimiser's contract: distortion is moderate and monotonic
        for t in range(0, 1800, 20):
            d = sum((k + 1) * float(c) * t ** k for k, c in enumerate(cs))
            E.assume(0.3 < d < 2.5)
    out = post.unwarp_line_backward(lines, xc, yc, cs)
    E.check(len(out) == len(lines), "one output line per line")
    for p, o in zip(pts, out):
        E.shape_is(o, (len(p), 2), "one output point per point")
        for k, (y, x) in enumerate(p):
            if E.sym:
                inverse(E, o[k, 1], o[k, 0], x, y, xc, yc, cs)
            else:
                xd, yd = radial(E, o[k, 1], o[k, 0], xc, yc, cs)
                E.eq(xd, x, "the model sends the result to the input (x)",
                     E.q("0.02"))
                E.eq(yd, y, "the model sends the result to the input (y)",
                     E.q("0.02"))
    E.unchanged(lines, keep, "lines untouched")
    E.unchanged(cs, kc, "coefficients untouched")


def inverse(E, xu, yu, x, y, xc, yc, cs):
    dx, dy = x - xc, y - yc
    r = E.sqrt(dx * dx + dy * dy)
    if r == 0:
        E.eq(xu, xc, "the centre stays")
        E.eq(yu, yc, "the centre stays")
        return
    # the root used for this point: the record whose first argument gives it
    t = [rc["x"][0] for kind, rc in E.records if kind == "minimize"]
    ok = []
    for q in t:
        ok.append(E.And((xu - xc) * r == q * dx, (yu - yc) * r == q * dy,
                        q * poly(E, cs, q) == r))
    E.check(E.Or(*ok) if ok else False,
            "the model sends the result to the input (x)")


HARNESSES = [
    H("lines_bwd", lines_bwd,
      quick=[((1,), 1, "f"), ((1,), 3, "f"), ((2,), 2, "i"),
             ((2, 1), 2, "f"), ((1,), 5, "f")],
      thorough=[(s, n, t) for s in ((1,), (2, 1), (1, 1, 1))
                for n in (1, 2, 3, 4, 5) for t in "fi"],
      bounds="up to 3 points per task, 1-5 coefficients around the identity, "
             "points and centre in [0,900]^2"),
]
ASSUMPTIONS = [
    "real arithmetic stands for float rounding",
    "scipy.optimize.minimize returns a non-negative root of the objective "
    "it is handed (replays run the real optimiser)",
]
