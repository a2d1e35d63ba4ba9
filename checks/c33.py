"""C33 removing the perspective effect from distorted lines."""
from itertools import permutations
from .common import *
from .c09 import persp
from symx.terms import Unsupported

HB = [("1/20", -40), ("-1/50", 35), ("1/25", -20), ("1/100", 22)]
VB = [("-1/25", -50), ("1/40", 45), ("1/50", -24), ("-1/100", 27)]


def rep(E, lines, method):
    """slope and intercept standing for parabolas bending the same way"""
    if method in ("max", "min"):
        best = lines[0]
        for ln in lines[1:]:
            c = E.abs(ln[0]) > E.abs(best[0])
            if c if method == "max" else not c:
                best = ln
        return best[1], best[2]
    bs, cs = [ln[1] for ln in lines], [ln[2] for ln in lines]
    if method == "median":
        def med(v):
            v = list(v)
            for i in range(len(v)):
                for j in range(len(v) - 1):
                    if v[j] > v[j + 1]:
                        v[j], v[j + 1] = v[j + 1], v[j]
            n = len(v)
            return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2
        return med(bs), med(cs)
    return sum(bs) / E.q(len(bs)), sum(cs) / E.q(len(cs))


def setup(E, nh, nv, free):
    """lines about the centre: y = a x^2 + b x + c and x = a y^2 + b y + c"""
    out = []
    for tag, tab, n in (("h", HB, nh), ("v", VB, nv)):
        ls = []
        for k in range(n):
            b, c = E.q(tab[k][0]), E.q(tab[k][1])
            if free == "all" or tag + "b%d" % k in free:
                b = E.real(tag + "b%d" % k, b - E.q("1/50"), b + E.q("1/50"))
            if free == "all" or tag + "c%d" % k in free:
                c = E.real(tag + "c%d" % k, c - 5, c + 5)
            a = E.real(tag + "a%d" % k, E.q("-1/200"), E.q("1/200"))
            E.assume(E.Or(a > E.q("1e-5"), a < -E.q("1e-5")))
            ls.append((a, b, c))
        for i in range(n):
            for j in range(i):
                d = E.abs(ls[i][0]) - E.abs(ls[j][0])
                E.assume(E.Or(d > E.q("1e-6"), d < -E.q("1e-6")))
        out.append(ls)
    return out


class Modules:
    """C08 and C12 decide these two functions; here they are symbols"""

    def __init__(self, E, proc):
        self.E, self.calls = E, []
        self.t = [[E.real("t%d%s" % (k, z), -99, 99) for z in "yx"]
                  for k in range(4)]
        self.c = [E.real("p%d" % k, -2, 2) for k in range(6)] + \
            [E.real("p%d" % k, E.q("-1/1000"), E.q("1/1000"))
             for k in (6, 7)]
        if E.sym:
            E.patch(proc, "generate_4_source_target_perspective_points",
                    self.gen)
            E.patch(proc, "calc_perspective_coefficients", self.calc)

    def gen(self, points, input_order="yx", equal_dist=False, scale="mean"):
        p = [[q[0], q[1]] if input_order == "yx" else [q[1], q[0]]
             for q in points]
        self.calls.append(("gen", p, bool(equal_dist), scale))
        return self.E.arr(p), self.E.arr(self.t)

    def calc(self, source_points, target_points, mapping="backward"):
        a, b = source_points, target_points
        if mapping != "forward":
            a, b = b, a
        self.calls.append(("calc", [list(q) for q in a],
                           [list(q) for q in b]))
        return self.E.arr(self.c)

    def coef(self, proc, src, scale):
        """coefficients expected for these corners"""
        E = self.E
        if not E.sym:
            s, t = proc.generate_4_source_target_perspective_points(
                E.arr(src), scale=scale)
            return proc.calc_perspective_coefficients(s, t,
                                                      mapping="forward")
        if [c[0] for c in self.calls] != ["gen", "calc"]:
            raise Unsupported("other functions are used")
        (_, p, eq, sc), (_, a, b) = self.calls
        E.check(not eq and sc == scale, "options of the rectangle")
        E.check(E.Or(*[E.And(*[p[k][z] == src[m][z]
                               for k, m in enumerate(q) for z in (0, 1)])
                       for q in permutations(range(4))]),
                "corners are where the representative lines cross")
        for k in range(4):
            for z in (0, 1):
                E.eq(a[k][z], p[k][z], "corners are mapped")
                E.eq(b[k][z], self.t[k][z], "to the rectangle")
        return self.c


def effect(E):
    nh, nv, method, scale, free, form = E.cfg
    proc = E.load("proc")
    mod = Modules(E, proc)
    xc, yc = E.real("xc", -100, 100), E.real("yc", -100, 100)
    hor, ver = setup(E, nh, nv, free)
    us = [-30, 5, 40]
    hl = [[(a * u * u + b * u + c, u) for u in us] for a, b, c in hor]
    vl = [[(u, a * u * u + b * u + c) for u in us] for a, b, c in ver]
    mk = (lambda ls: [E.arr([[y + yc, x + xc] for y, x in p])
                      for p in ls]) if form == "array" else \
        (lambda ls: [[[y + yc, x + xc] for y, x in p] for p in ls])
    H, V = mk(hl), mk(vl)
    kh, kv = E.snap(H), E.snap(V)
    kw = {}
    if method is not None:
        kw["method"] = method
    if scale is not None:
        kw["scale"] = scale
    if E.sym:
        for y, x in sum(hl, []) + sum(vl, []):
            E.assume(mod.c[6] * x + mod.c[7] * y + 1 > E.q("1/2"))
    r = E.call(proc.correct_perspective_effect, H, V, xc, yc, **kw)
    E.unchanged(H, kh, "horizontal lines untouched")
    E.unchanged(V, kv, "vertical lines untouched")
    sides = []
    for ls in (hor, ver):
        up = [ln for ln in ls if ln[0] > 0]
        dn = [ln for ln in ls if not ln[0] > 0]
        sides.append((up, dn))
    if not all(up and dn for up, dn in sides) or nh < 2 or nv < 2:
        E.check(r.is_a(ValueError), "lines bending both ways are needed")
        return
    E.check(r.ok, "corrected")
    reps = [[rep(E, s, method) for s in side] for side in sides]
    for (b1, c1), (b2, c2) in reps:
        # lines far apart: a rectangle that is not degenerate
        E.assume(E.abs(c1 - c2) > 10)
    src = []
    for bh, ch in reps[0]:
        for bv, cv in reps[1]:
            y = (bh * cv + ch) / (1 - bh * bv)
            src.append([y, bv * y + cv])
    c = mod.coef(proc, src, "mean" if scale is None else scale)
    for got, ls in zip(r.value, (hl, vl)):
        E.check(len(got) == len(ls), "as many lines")
        for g, p in zip(got, ls):
            E.shape_is(g, (len(p), 2), "as many points")
            for k, (y, x) in enumerate(p):
                xn, yn = persp(c, x, y)
                E.eq(g[k, 1], xn + xc, "corrected x", E.q("0.01"))
                E.eq(g[k, 0], yn + yc, "corrected y", E.q("0.01"))


def vanish(E):
    """curvature proportional to the offset from the centre (barrel): the
    parabolas cross on two lines through the centre"""
    nh, nv, way, tilted = E.cfg
    proc = E.load("proc")
    q = E.q
    xc, yc = E.real("xc", 400, 700), E.real("yc", 400, 700)
    k = E.real("k", q("1e-7"), q("1e-6"))
    if tilted == "pincushion":
        k = -k
    b = E.real("tilt", -q("0.02"), q("0.02")) \
        if tilted in (True, "pairs") else 0

    def off(n, nm):
        """(curvature, offset) of the lines"""
        c = [100 * i - 50 * (n - 1) - {"shifted": 30, "other": -30}.get(tilted, 0) +
             (7 if i % 2 and tilted != "pincushion" else 0)
             for i in range(n)]
        if tilted != "pairs":
            return [(-k * v, v) for v in c]
        # pairs bending alike, any strengths
        s = [E.real("%s%d" % (nm, i), q("1e-5"), q("1e-4"))
             for i in range(n // 2)]
        for i in range(n // 2):
            for j in range(i):
                E.assume(E.abs(s[i] - s[j]) > q("1e-6"))
        return [(s[i], c[i]) for i in range(n // 2)] + \
            [(-s[i], -c[i]) for i in reversed(range(n // 2))]
    ts = [-400, 0, 450]
    hor = [E.arr([[yc + a * t * t + b * t + c, xc + t] for t in ts])
           for a, c in off(nh, "h")]
    ver = [E.arr([[yc + t, xc + a * t * t - b * t + c] for t in ts])
           for a, c in off(nv, "v")]
    keep = E.snap([hor, ver])
    if way == 1:
        x, y = proc.find_center_based_vanishing_points(hor, ver)
    else:
        x, y = proc.find_center_based_vanishing_points_iteration(
            hor, ver, **({} if way == 9 else {"iteration": way - 2}))
    E.eq(x, xc, "x of the centre", q("0.1"))
    E.eq(y, yc, "y of the centre", q("0.1"))
    E.unchanged([hor, ver], keep, "lines untouched")


def method(E):
    """the iteration corrects the perspective by the requested method"""
    how, steps = E.cfg
    proc = E.load("proc")
    real = proc.correct_perspective_effect
    said = []

    def spy(*a, **k):
        said.append(a[4] if len(a) > 4 else k.get("method", "mean"))
        return real(*a, **k)
    E.patch(proc, "correct_perspective_effect", spy)
    xc, yc = E.real("xc", 400, 700), E.real("yc", 400, 700)
    k = E.q("4e-7")
    ts = [-400, 0, 450]
    cs = [-150, -43, 50, 157]
    hor = [E.arr([[yc - k * c * t * t + c, xc + t] for t in ts]) for c in cs]
    ver = [E.arr([[yc + t, xc - k * c * t * t + c] for t in ts]) for c in cs]
    kw = {} if how is None else {"method": how}
    proc.find_center_based_vanishing_points_iteration(
        hor, ver, iteration=steps, **kw)
    if not said:
        if not E.sym:
            E.assume(False)
        E.unsupported("the correction is done elsewhere")
    E.check(said == [how or "mean"] * steps, "requested method used")


HARNESSES = [
    H("method", method, quick=[(None, 1), ("max", 1), ("median", 1),
                               ("min", 1)],
      bounds="a grid of four by four lines, any centre, all methods"),
    H("vanish", vanish, quick=[(4, 4, 1, True), (4, 4, 2, True),
                               (4, 4, 1, False), (4, 6, 1, False),
                               (5, 4, 2, False), (3, 3, 2, True), (4, 4, 3, False),
                               (4, 4, 1, "pairs"), (6, 4, 1, "pairs"),
                               (4, 4, 1, "pincushion"),
                               (5, 5, 1, "shifted"), (7, 4, 2, "shifted"),
                               (5, 5, 1, "other"),
                               (4, 4, 2, "pincushion"),
                               (4, 5, 2, "pincushion"),
                               (3, 4, 9, False)],
      bounds="grids of 3-6 lines"),
    H("effect", effect, quick=[
        (2, 2, None, None, "all", "array"), (2, 2, "mean", "max", "all", "list"),
        (3, 2, "mean", None, "all", "array"), (2, 3, "median", None, "all",
                                            "array"),
        (3, 2, "max", "min", "all", "array"), (2, 3, "min", None, "all", "list"),
        (1, 2, None, None, "all", "array"), (2, 1, None, None, "all", "array"),
        (2, 2, None, 1.5, "all", "array"), (3, 3, "median", None, "all", "array"),
        (4, 2, "median", None, "all", "array"),
        (2, 4, "median", None, "all", "list"),
        (4, 2, "max", None, "all", "array"),
        (2, 4, "min", None, "all", "array")],
      thorough=[(a, b, m, s, "all", "array") for a in (3, 4) for b in (3, 4)
                for m in ("mean", "median", "max", "min")
                for s in (None, "max")],
      bounds="2-3 lines in each direction, three points on each; any "
             "curvature and centre"),
]
