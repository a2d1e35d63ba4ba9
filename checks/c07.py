"""C07 residuals are distances to the best straight line of each line."""
from .common import *


def fit(E, u, v):
    """least-squares line v = a*u + b"""
    n = len(u)
    um, vm = sum(u) / E.q(n), sum(v) / E.q(n)
    den = sum((p - um) * (p - um) for p in u)
    a = sum((p - um) * (q - vm) for p, q in zip(u, v)) / den
    return a, vm - a * um


def residual(E):
    which, lens, free = E.cfg
    post = E.load("post")
    xc, yc = E.real("xc", -300, 300), E.real("yc", -300, 300)
    lines, want = [], []
    for a, n in enumerate(lens):
        t0 = E.real("t%d" % a, -200, 200)
        if free:
            u = [t0]
            for k in range(1, n):
                u.append(u[-1] + E.real("d%d_%d" % (a, k), 1, 50))
        else:
            s = E.real("s%d" % a, 1, 50)
            u = [t0 + s * k for k in range(n)]
        v = [E.real("v%d_%d" % (a, k), -200, 200) for k in range(n)]
        uc, vc = (xc, yc) if which == "hor" else (yc, xc)
        ls = [[q, p] if which == "hor" else [p, q] for p, q in zip(u, v)]
        lines.append(E.arr(ls))
        fa, fb = fit(E, u, v)
        for p, q in zip(u, v):
            want.append((E.sqrt((p - uc) * (p - uc) + (q - vc) * (q - vc)),
                         E.abs(fa * p + fb - q) / E.sqrt(fa * fa + 1)))
    keep = E.snap(lines)
    f = post.calc_residual_hor if which == "hor" else post.calc_residual_ver
    out = f(lines, xc, yc)
    E.shape_is(out, (len(want), 2), "one row per dot")
    rows = [(out[k, 0], out[k, 1]) for k in range(len(want))]
    for p, q in zip(rows, rows[1:]):
        E.check(p[0] <= q[0], "sorted by radius")
    tol = E.q("1e-5")

    def near(p, w):
        if E.sym:
            return E.And(p[0] == w[0], p[1] == w[1])
        return abs(p[0] - w[0]) < 1e-4 and abs(p[1] - w[1]) < 1e-4
    left = list(range(len(rows)))
    for w in want:
        hit = [k for k in left if near(rows[k], w) is True]
        if hit:
            left.remove(hit[0])
        else:
            E.check(E.Or(*[near(rows[k], w) for k in left]),
                    "every dot has its residual")
    E.unchanged(lines, keep, "lines untouched")


def straight(E):
    """dots on straight lines have no residual, wherever the centre is"""
    which, n, m = E.cfg
    post = E.load("post")
    xc, yc = E.real("xc", -300, 300), E.real("yc", -300, 300)
    lines = []
    for a in range(m):
        k0, sl = E.real("b%d" % a, -200, 200), E.real("a%d" % a, -3, 3)
        u = [E.real("u%d" % a, -200, 200)]
        for k in range(1, n):
            u.append(u[-1] + E.real("d%d_%d" % (a, k), 1, 50))
        lines.append(E.arr([[sl * p + k0, p] if which == "hor"
                            else [p, sl * p + k0] for p in u]))
    f = post.calc_residual_hor if which == "hor" else post.calc_residual_ver
    out = f(lines, xc, yc)
    E.shape_is(out, (n * m, 2), "one row per dot")
    for k in range(n * m):
        E.eq(out[k, 1], 0, "straight lines have no residual")


def judge(E):
    """15% rule: any subset of residuals above one pixel"""
    n, = E.cfg
    post = E.load("post")
    rows = [[E.real("r%d" % k, 0, 3000), E.real("e%d" % k, 0, 10000)]
            for k in range(n)]
    res = post.check_distortion(E.arr(rows))
    cnt = sum(1 for r in rows if r[1] > 1)
    E.check(bool(res) == (100 * cnt > 15 * n),
            "distorted when more than 15% of the residuals exceed 1 pixel")


def judge_big(E):
    n, = E.cfg
    post = E.load("post")
    cnt = E.choice("count", list(range(0, n + 1, max(1, n // 20))))
    rows = []
    for k in range(n):
        e = E.real("e%d" % k, 0, 10000)
        E.assume((e > 1) if (k * 7) % n < cnt else (e <= 1))
        rows.append([E.real("r%d" % k, 0, 3000), e])
    real = sum(1 for k in range(n) if (k * 7) % n < cnt)
    res = post.check_distortion(E.arr(rows))
    E.check(bool(res) == (100 * real > 15 * n),
            "distorted when more than 15% of the residuals exceed 1 pixel")


HARNESSES = [
    H("residual", residual,
      quick=[("hor", (3,), True), ("ver", (3,), True), ("hor", (4,), False),
             ("ver", (4,), False), ("hor", (2, 2), True),
             ("ver", (3, 2), False)],
      thorough=[(w, s, f) for w in ("hor", "ver") for s in (
          (3,), (4,), (5,), (2, 2), (3, 2), (2, 2, 2)) for f in (True, False)],
      budget=100,
      bounds="up to 3 lines, up to 6 dots, arbitrary positions"),
    H("straight", straight, quick=[("hor", 3, 1), ("ver", 3, 1),
                                   ("hor", 2, 2), ("ver", 2, 2)],
      thorough=[(w, n, m) for w in ("hor", "ver")
                for n, m in ((2, 1), (3, 1), (4, 1), (2, 2), (5, 1))],
      budget=60, bounds="up to 2 lines, up to 5 dots"),
    H("judge", judge, quick=[(1,), (2,), (6,), (7,)],
      thorough=[(k,) for k in range(1, 10)], bounds="up to 7 (9) residuals"),
    H("judge_big", judge_big, quick=[(20,), (33,), (100,)],
      thorough=[(20,), (33,), (40,), (100,), (200,)],
      bounds="20-200 residuals, every count of large ones at fixed spots"),
]
ASSUMPTIONS = ["real arithmetic stands for float rounding",
               "numpy.polyfit is the exact least-squares fit"]
