"""C18 removal of residual dots."""
from .common import *


def resid(E, u, v):
    """residuals of the least-squares parabola v(u), u given numbers"""
    from fractions import Fraction as F
    u = [F(t) if not isinstance(t, str) else F(t) for t in u]
    n = len(u)
    m = sum(u) / n
    u = [t - m for t in u]
    # orthogonal polynomials on the nodes
    p0 = [F(1)] * n
    p1 = list(u)
    s2 = sum(t * t for t in u)
    k1 = sum(t ** 3 for t in u) / s2
    p2 = [t * t - k1 * t - s2 / n for t in u]
    out = list(v)
    for p in (p0, p1, p2):
        d = sum(t * t for t in p)
        if d == 0:
            continue
        if E.sym:
            c = sum(a * b for a, b in zip(p, v)) / d
            out = [o - c * a for o, a in zip(out, p)]
        else:
            c = sum(float(a) * b for a, b in zip(p, v)) / float(d)
            out = [o - c * float(a) for o, a in zip(out, p)]
    return out


def filt(E):
    axis, lines, slope, res = E.cfg
    prep = E.load("prep")
    q = E.q
    s = E.real("slope", -1, 1) if slope is None else q(slope)
    cos = 1 / E.sqrt(1 + s * s)
    r0 = E.real("residual", q("0.01"), 9) if res is None else q(res)
    given, ref = [], []
    for i, (us, free, curv) in enumerate(lines):
        v = [q(40 * i) + q(curv) * q(u) * q(u) + s * q(u) +
             (E.real("v%d_%d" % (i, j), -6, 6) if j in free else 0)
             for j, u in enumerate(us)]
        given.append(E.arr([[b, q(a)] if axis == "hor" else [q(a), b]
                            for a, b in zip(us, v)]))
        ref.append((us, v))
    keep = [E.snap(g) for g in given]
    f = getattr(prep, "remove_residual_dots_" + axis)
    if res == "2.5":
        out = E.call(f, given, s)
    else:
        out = E.call(f, given, s, r0)
    want = []
    for us, v in ref:
        e = resid(E, us, v)
        w = [(q(u), b) for u, b, d in zip(us, v, e) if abs(d) * cos < r0]
        if w:
            want.append(w)
    if not want:
        return exc_is(E, out, (ValueError,), "nothing left: ValueError")
    E.check(out.ok, "dots left")
    if not out.ok:
        return
    out = out.value
    E.check(len(out) == len(want), "number of lines")
    for ln, w in zip(out, want):
        E.check(len(ln) == len(w), "dots within the residual")
        for d, (u, b) in zip(ln, w):
            E.eq(d[0], b if axis == "hor" else u, "dot kept as it is (y)")
            E.eq(d[1], u if axis == "hor" else b, "dot kept as it is (x)")
    for g, k in zip(given, keep):
        E.unchanged(g, k, "lines untouched")


U5 = (0, 20, 41, 60, 80)
U4 = (10, 30, 50, 72)
U6 = (-50, -30, -10, 10, 30, 50)
U15 = tuple(20 * k - 95 + k % 3 for k in range(15))
DOWN = (80, 60, 41, 20, 0)
MIX = (10, -30, 50, -50, 30, -10)
Q = [(a, L, s, r) for a in ("hor", "ver") for L, s, r in (
    (((U5, tuple(range(5)), "0"), (U4, tuple(range(4)), "0.002")), "0", "2.5"),
    (((U6, tuple(range(6)), "0.001"),), "0.75", None),
    (((U6, (0, 3), "0"), (U4, (1,), "-0.001"), (U5, (4,), "0")),
     "-0.75", None),
    (((U5, (1, 3), "0.001"), (U4, (0, 3), "0")), None, "1.5"),
    (((U4, (1,), "0"),), None, None),
    (((U15, (3, 11), "0.0005"),), "0.75", "0.5"),
    (((DOWN, (0, 2), "0.001"), (MIX, (1, 4), "0")), "0", None),
    (((MIX, (0, 3), "0.001"),), "-4/3", "0.125"))]
HARNESSES = [
    H("filter", filt, quick=Q, thorough=Q + [
        (a, ((U6, tuple(range(6)), c), (U5, tuple(range(5)), c)), s, r)
        for a in ("hor", "ver") for c in ("0", "0.003")
        for s in ("0", "0.75", "-4/3") for r in ("2.5", None)],
      budget=120, bounds="1-3 lines of 4-15 dots at given places, in any order, along the "
                         "line, free across within 6 pixels; free or given "
                         "slope and residual"),
]
ASSUMPTIONS = ["real arithmetic stands for float rounding",
               "numpy.polyfit returns the exact least-squares solution"]
