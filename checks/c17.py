"""C17 grouping of dots into strongly curved lines (polynomial fit)."""
from .common import *
from .c16 import PERMS


def rows(E):
    """rows curved as parabolas, with scatter across: they come back whole"""
    axis, nr, nc, curv, miss, stray, perm, sl, free, kw = E.cfg
    prep = E.load("prep")
    q = E.q
    d = 20
    kw = dict(kw)
    lost = kw.pop("lost", ())      # rows with too few dots in the middle
    quart, cub = q(kw.pop("quart", 0)), q(kw.pop("cub", 0))
    # dots near the tolerance: (row, dot, from, to, taken)
    wide = {w[:2]: w[2:] for w in kw.pop("wide", ())}
    tol = q(str(kw.get("ratio", 0.1))) * d
    u0, v0 = [q(z) for z in kw.pop("at", (0, 0))]
    s = q(sl)
    n = E.sqrt(1 + s * s)
    co, si = 1 / n, s / n
    if not E.sym:
        co, si = float(co), float(si)
    else:
        E.check(not hasattr(co, "n"), "rational rotation")
    pts, row = [], []
    for i in range(nr):
        for j in range(nc):
            if (i, j) in miss:
                continue
            u = q(d * (j - (nc - 1) // 2) + 7) + q(i) / 8
            e = E.real("e%d_%d" % (i, j), -q("0.15"), q("0.15")) \
                if (i, j) in free else 0
            if (i, j) in wide:
                lo, hi = q(wide[i, j][0]) * tol, q(wide[i, j][1]) * tol
                e = E.real("w%d_%d" % (i, j), min(lo, hi), max(lo, hi))
            v = q(d * i) + q(curv) * u * u + cub * u ** 3 + \
                quart * u ** 4 + e
            u, v = u + u0, v + v0
            # rotate by the slope
            x, y = u * co - v * si, u * si + v * co
            pts.append([y, x] if axis == "hor" else
                       [u * co - v * si, v * co + u * si])
            row.append(i if wide.get((i, j), (0, 0, True))[2] else None)
    for u, v in stray:
        u, v = q(u) + u0, q(v) + v0
        pts.append([u * si + v * co, u * co - v * si] if axis == "hor" else
                   [u * co - v * si, v * co + u * si])
        row.append(None)
    order = PERMS[perm](len(pts))
    arr = E.arr([pts[i] for i in order])
    keep = E.snap(arr)
    f = getattr(prep, "group_dots_%s_lines_based_polyfit" % axis)
    slope = s
    out = f(arr, slope, d, **kw)
    want = [[k for k in range(len(pts)) if row[k] == i] for i in range(nr)]
    top = max(len(w) for w in want)
    acc = kw.get("accepted_ratio", 0.65)
    want = [w for i, w in enumerate(want)
            if len(w) > int(acc * top) and i not in lost]
    E.check(len(out) == len(want), "number of lines")
    for ln, w in zip(out, want):
        E.check(len(ln) == len(w), "dots of the row")
        for k, i in enumerate(w):
            if k < len(ln):
                E.eq(ln[k][0], pts[i][0], "dots of the row in order")
                E.eq(ln[k][1], pts[i][1], "dots of the row in order")
    E.unchanged(arr, keep, "points untouched")


def empty(E):
    axis = E.cfg
    prep = E.load("prep")
    f = getattr(prep, "group_dots_%s_lines_based_polyfit" % axis)
    r = E.call(f, E.arr([]), E.real("s", -1, 1), E.real("d", 1, 50))
    exc_is(E, r, (ValueError,), "no dots: ValueError")


A3 = tuple((i, j) for i in range(3) for j in range(7))
A2 = tuple((i, j) for i in range(2) for j in range(6))
C = {"ratio": 0.3, "num_dot_miss": 2}
R = [("hor", 3, 7, "0.003", (), (), "id", "0", A3, C),
     ("ver", 3, 7, "-0.003", (), (), "mix", "0", A3, C),
     ("hor", 2, 6, "0.003", (), (), "rev", "0.75", A2, C),
     ("ver", 2, 6, "0.003", (), (), "rev", "0.75", A2, C),
     ("hor", 2, 6, "0.003", (), (), "rev", "-0.75", A2, C),
     ("ver", 3, 7, "0.001", ((0, 2), (1, 3)), ((11, 11),), "mix", "-0.75",
      ((0, 0), (2, 6)), {"ratio": 0.3, "num_dot_miss": 3}),
     ("hor", 3, 9, "0.0002", ((0, 4), (0, 5), (0, 6)), (), "id", "0",
      ((0, 0), (1, 8)),
      {"num_dot_miss": 2, "accepted_ratio": 0.3, "lost": (0,)}),
     ("ver", 3, 9, "0.0002", ((1, 4), (1, 5), (1, 6)), (), "mix", "0.75",
      ((2, 0),),
      {"num_dot_miss": 2, "accepted_ratio": 0.3, "lost": (1,)}),
     ("hor", 3, 11, "0.0005", ((2, 0),), ((-90, 10), (90, 30)), "rev", "0",
      ((0, 0), (1, 10)), {"overlap_ratio": 0.0, "num_dot_miss": 2}),
     ("hor", 2, 13, "0.0003", (), ((105, 6), (-120, 8)), "rev", "0.75",
      ((0, 0), (1, 12)), {"overlap_ratio": 0.0, "num_dot_miss": 2}),
     ("ver", 2, 13, "0.0003", (), ((105, 6), (-120, 8)), "mix", "-0.75",
      ((0, 12), (1, 0)), {"overlap_ratio": 0.25, "num_dot_miss": 2}),
     ("ver", 2, 13, "0", ((0, 10), (1, 1), (1, 2)), (), "id", "0",
      ((0, 12),), {"order": 1, "num_dot_miss": 2}),
     ("hor", 3, 9, "0.0002", ((0, 5), (0, 6)), (), "id", "0.75",
      ((0, 0), (1, 8)),
      {"num_dot_miss": 2, "accepted_ratio": 0.3, "at": (300, 40)}),
     ("ver", 3, 9, "0.0002", ((1, 2), (1, 3)), (), "mix", "0",
      ((0, 0), (1, 8)),
      {"num_dot_miss": 2, "accepted_ratio": 0.3, "at": (340, -60)}),
     ("hor", 3, 9, "-0.0003", ((0, 0), (0, 1), (0, 7), (0, 8)), (), "mix",
      "-0.75", ((0, 4), (1, 8)), {"num_dot_miss": 2, "at": (100, 400)}),
     ("ver", 3, 9, "0.0004", ((1, 0), (1, 1), (1, 7), (1, 8)), (), "rev",
      "0.75", ((0, 4), (2, 0)), {"num_dot_miss": 2, "at": (700, 90)}),
     # not quite parabolas: to be followed step by step
     ("hor", 2, 15, "0.0003", (), (), "mix", "0", ((0, 4), (1, 8)),
      {"num_dot_miss": 2, "ratio": 0.09, "quart": "9e-9", "at": (500, 0)}),
     ("ver", 2, 15, "-0.0002", (), (), "mix", "0.75", ((0, 4), (1, 8)),
      {"num_dot_miss": 2, "ratio": 0.09, "quart": "9e-9", "at": (500, 0)}),
     # cubic curves
     ("hor", 3, 11, "0.0003", (), (), "mix", "0", ((0, 4), (1, 8)),
      {"num_dot_miss": 3, "cub": "4e-6", "order": 3}),
     ("ver", 3, 11, "0.0003", (), (), "rev", "0.75", ((0, 4), (1, 8)),
      {"num_dot_miss": 3, "cub": "-4e-6", "order": 3}),
     # dots just inside and just outside the tolerance, in the outer parts
     ("hor", 3, 11, "0.0002", (), (), "mix", "0", (),
      {"num_dot_miss": 2, "wide": ((0, 10, "0.93", "0.99", True),
                                   (1, 0, "-0.99", "-0.93", True),
                                   (2, 10, "1.02", "1.3", False),
                                   (2, 0, "-1.4", "-1.02", False))}),
     ("ver", 3, 11, "0.0002", (), (), "rev", "0.75", (),
      {"num_dot_miss": 2, "wide": ((0, 0, "0.93", "0.99", True),
                                   (1, 10, "-0.99", "-0.93", True),
                                   (2, 10, "-1.3", "-1.02", False),
                                   (2, 0, "1.02", "1.4", False))}),
     # gaps, shorter than the searching range
     ("hor", 2, 21, "0.0001", tuple((0, j) for j in (8, 9, 10, 11)), (),
      "mix", "0", ((0, 4),), {"num_dot_miss": 6}),
     ("ver", 2, 21, "0.0001", tuple((0, j) for j in (9, 10, 11, 12)), (),
      "mix", "0", ((0, 4),), {"num_dot_miss": 6}),
     ("hor", 3, 21, "0.0001",
      tuple((1, j) for j in (2, 3, 4, 5, 6, 14, 15, 16, 17, 18, 19, 20)), (),
      "mix", "0.75", ((1, 0),), {"accepted_ratio": 0.3}),
     ("ver", 3, 21, "0.0001",
      tuple((1, j) for j in (2, 3, 4, 5, 6, 14, 15, 16, 17, 18, 19, 20)), (),
      "rev", "0", ((1, 0),), {"accepted_ratio": 0.3}),
     ("ver", 3, 21, "0.0001",
      tuple((1, j) for j in (0, 1, 2, 3, 4, 5, 6, 14, 15, 16, 17, 18)), (),
      "rev", "0", ((1, 20),), {"accepted_ratio": 0.3}),
     ("hor", 3, 21, "0.0001",
      tuple((1, j) for j in (0, 1, 2, 3, 4, 5, 6, 14, 15, 16, 17, 18)), (),
      "mix", "0", ((1, 20),), {"accepted_ratio": 0.3}),
     # tilted rows with different ends: medians and first dots coincide
     ("hor", 4, 20, "0.0001", tuple((2, j) for j in range(16, 20)), (), "mix",
      "8/15", ((2, 0),), {}),
     ("ver", 4, 20, "0.0001", tuple((2, j) for j in range(4)), (), "mix",
      "8/15", ((2, 5),), {}),
     ("hor", 4, 20, "0.0001", ((1, 0), (1, 1)), (), "mix",
      "8/15", ((2, 0),), {}),
     ("ver", 4, 20, "0.0001", ((1, 18), (1, 19)), (), "mix",
      "8/15", ((2, 0),), {}),
     # a single row, with a gap in its middle
     ("hor", 1, 26, "0.00001", tuple((0, j) for j in (11, 12, 13, 14)), (),
      "mix", "0", ((0, 0),), {"num_dot_miss": 4}),
     ("ver", 1, 26, "0.00001", tuple((0, j) for j in (11, 12, 13, 14)), (),
      "mix", "0.75", ((0, 0),), {"num_dot_miss": 4}),
     ]
HARNESSES = [
    H("rows", rows, quick=R,
      thorough=R + [(a, r, c, cu, m, (), p, s, ((0, 0), (1, c - 1)), k)
                    for a in ("hor", "ver") for r, c in ((3, 9), (5, 15))
                    for cu in ("0", "0.0003", "-0.0005")
                    for m in ((), ((0, 1), (1, 5)))
                    for p in ("mix", "rev") for s in ("0", "0.75", "-0.75")
                    for k in ({}, {"ratio": 0.3, "num_dot_miss": 2})],
      budget=90, bounds="1-5 rows of 6-26 dots on parallel curves, free "
                        "scatter of some or all dots across the row, seven "
                        "slopes, three input orders"),
    H("empty", empty, quick=["hor", "ver"], bounds="no dots"),
]
ASSUMPTIONS = ["real arithmetic stands for float rounding",
               "numpy.polyfit returns the exact least-squares solution"]
