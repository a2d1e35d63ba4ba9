"""C16 grouping of dots into lines."""
from .common import *

PERMS = {"id": lambda n: list(range(n)),
         "rev": lambda n: list(range(n))[::-1],
         "mix": lambda n: sorted(range(n), key=lambda i: (i * 7) % 11 * 50 + i)}


def flip(axis, y, x):
    """(along, across) -> (y, x)"""
    return [y, x] if axis == "hor" else [x, y]


def find(E, line, pts, along):
    """positions in pts of the dots of a line"""
    out = []
    for k in range(len(line)):
        m = [i for i, p in enumerate(pts)
             if E.ident(line[k][0], p[0]) and E.ident(line[k][1], p[1])]
        out.append(m[0] if len(m) == 1 else None)
    return out


def rows(E):
    """dots scattered about well separated rows: the rows come back"""
    axis, nr, nc, miss, stray, perm, tilt, kw = E.cfg
    prep = E.load("prep")
    q = E.q
    d = 20
    s = E.real("slope", q(tilt) - q("0.05"), q(tilt) + q("0.05"))
    e = q("1.5")
    pts, row = [], []
    for i in range(nr):
        for j in range(nc):
            if (i, j) in miss:
                continue
            x = d * j + i * q("1.3") + E.real("x%d_%d" % (i, j), 0, q("0.6"))
            y = s * x + d * 2 * i + E.real("y%d_%d" % (i, j), -e, e)
            pts.append(flip(axis, y, x))
            row.append(i)
    for i, (a, b) in enumerate(stray):
        x, y = q(a) + q("0.01"), s * q(a) + q(b)
        pts.append(flip(axis, y, x))
        row.append(None)
    order = PERMS[perm](len(pts))
    arr = E.arr([pts[i] for i in order])
    keep = E.snap(arr)
    f = getattr(prep, "group_dots_%s_lines" % axis)
    out = f(arr, s, d, **kw)
    want = [[k for k in range(len(pts)) if row[k] == i] for i in range(nr)]
    top = max(len(w) for w in want)
    acc = kw.get("accepted_ratio", {"hor": 0.65, "ver": 0.75}[axis])
    want = [w for w in want if len(w) > int(acc * top)]
    E.check(len(out) == len(want), "number of lines")
    for ln, w in zip(out, want):
        E.check(len(ln) == len(w), "dots of the row")
        for k, i in enumerate(w):
            if k < len(ln):
                E.eq(ln[k][0], pts[i][0], "dots of the row in order")
                E.eq(ln[k][1], pts[i][1], "dots of the row in order")
    E.unchanged(arr, keep, "points untouched")


def chains(E, u, v, s, reach, tol, acc):
    """reference: repeatedly start at the first dot left and append every
    next dot within reach of the last one and near the line through it"""
    left = []
    for i in range(len(u)):
        k = len(left)
        while k and u[i] < u[left[k - 1]]:
            k -= 1
        left.insert(k, i)
    lines = []
    c = E.sqrt(1 + s * s)
    while left:
        ln, rest = [left[0]], []
        for i in left[1:]:
            j = ln[-1]
            ok = u[i] - u[j] < reach
            if ok:
                ok = E.abs(v[i] - v[j] - s * (u[i] - u[j])) < tol * c
            if ok:
                ln.append(i)
            else:
                rest.append(i)
        left = rest
        if len(ln) > 1:
            lines.append(ln)
    top = max([len(x) for x in lines] + [0])
    return [x for x in lines if len(x) > int(acc * top)]


def invariants(E):
    """any dots: the lines are the chains of dots that lie in line"""
    axis, n, miss, sl, kw = E.cfg
    prep = E.load("prep")
    q = E.q
    kw = dict(kw)
    d, ratio, s = q(kw.pop("d", "20")), q(kw.pop("ratio", "0.3")), q(sl)
    al = [0] + [E.real("u%d" % i, 0, 70) for i in range(1, n)]
    ac = [0] + [E.real("v%d" % i, -15, 45) for i in range(1, n)]
    # numpy's default sort is not stable: leave ties aside
    for i in range(n if n > 2 else 0):
        for j in range(i):
            E.assume(E.abs(al[i] - al[j]) > q("1e-3"))
    pts = [flip(axis, v, u) for u, v in zip(al, ac)]
    arr = E.arr(pts)
    acc = kw.get("accepted_ratio", {"hor": 0.65, "ver": 0.75}[axis])
    want = chains(E, al, ac, s, miss * d, ratio * d, acc)
    f = getattr(prep, "group_dots_%s_lines" % axis)
    r = E.call(f, arr, s, float(d), ratio=float(ratio), num_dot_miss=miss,
               **kw)
    if not want:
        E.check(not r.ok or len(r.value) == 0, "no line, none invented")
        return
    E.check(r.ok, "lines are found")
    if not r.ok:
        return
    out = r.value
    ia, ic = (1, 0) if axis == "hor" else (0, 1)
    got = [find(E, ln, pts, ia) for ln in out]
    E.check(all(None not in g for g in got), "dots of the input")
    if n == 2:
        got, want = [sorted(g) for g in got], [sorted(w) for w in want]
    E.check(sorted(got) == sorted(want), "chains of dots in line")
    ms = [sum(p[ic] - s * p[ia] for p in ln) / E.q(len(ln)) for ln in out]
    for a, b in zip(ms, ms[1:]):
        E.check(a <= b, "lines in order")


def empty(E):
    axis = E.cfg
    prep = E.load("prep")
    f = getattr(prep, "group_dots_%s_lines" % axis)
    r = E.call(f, E.arr([]), E.real("s", -1, 1), E.real("d", 1, 50))
    exc_is(E, r, (ValueError,), "no dots: ValueError")


R = [("hor", 3, 4, (), (), "id", "0", {}),
     ("ver", 3, 5, ((0, 0), (0, 1), (0, 2)), (), "mix", "0.1", {}),
     ("ver", 3, 4, ((1, 0), (1, 1)), ((30, 20), (31, 60)), "rev", "0", {}),
     ("ver", 3, 4, (), (), "rev", "0", {}),
     ("hor", 3, 5, ((0, 2), (1, 0), (2, 4)), (), "mix", "0.1", {}),
     ("ver", 3, 5, ((0, 1), (0, 2), (2, 0)), (), "mix", "-0.1",
      {"accepted_ratio": 0.5}),
     ("hor", 3, 4, ((0, 0), (0, 1)), ((30, 20), (31, 60)), "rev", "0", {}),
     ("ver", 2, 5, ((1, 1), (1, 2), (1, 3)), (), "id", "0.2",
      {"accepted_ratio": 0.3}),
     ("hor", 2, 6, ((0, 1), (0, 2)), (), "id", "0", {"num_dot_miss": 4}),
     ("hor", 2, 5, ((0, 1), (0, 2), (0, 3)), (), "id", "0", {}),
     ("ver", 2, 5, ((0, 1), (0, 2), (0, 3)), (), "mix", "0.1", {}),
     ("hor", 3, 5, ((1, 2),), (), "rev", "0", {"accepted_ratio": 0.95}),
     ("hor", 3, 10, ((1, 0), (1, 1), (1, 2), (1, 3), (1, 4)), (), "mix",
      "-0.95", {"accepted_ratio": 0.3}),
     ("ver", 3, 10, ((1, 9), (1, 8), (1, 7), (1, 6), (1, 5)), (), "mix",
      "0.95", {"accepted_ratio": 0.3}),
     ("ver", 3, 5, ((1, 2), (2, 3)), (), "id", "0", {"accepted_ratio": 0.9}),
     ("hor", 2, 4, (), (), "mix", "0", {"ratio": 0.2, "num_dot_miss": 2})]
HARNESSES = [
    H("rows", rows, quick=R,
      thorough=[(a, r, c, m, st, p, t, k) for a in ("hor", "ver")
                for r, c in ((3, 5), (4, 7))
                for m in ((), ((0, 0), (1, 1), (2, 2), (1, 3)))
                for st in ((), ((30, 20), (31, 60)))
                for p in ("id", "mix", "rev") for t in ("0", "0.15", "-0.2")
                for k in ({}, {"accepted_ratio": 0.4})], budget=90,
      bounds="2-4 rows of 4-7 dots each with free scatter, free slope; "
             "missing and stray dots, three input orders"),
    H("free", invariants,
      quick=[("hor", 3, 2, "0", {}), ("ver", 3, 2, "0.75", {}),
             ("hor", 4, 2, "0.75", {"accepted_ratio": 0.4}),
             ("ver", 4, 1, "0", {}), ("hor", 2, 3, "0", {}),
             ("hor", 2, 3, "0", {"d": "12.75", "ratio": "0.75"}),
             ("ver", 2, 3, "0.75", {"d": "10.25", "ratio": "0.875"}),
             ("hor", 3, 2.5, "0", {"d": "12.75", "ratio": "1.25"})],
      thorough=[(a, n, m, s, k) for a in ("hor", "ver") for n in (2, 3, 4, 5)
                for m in (1, 2, 3) for s in ("0", "0.75", "-0.75")
                for k in ({}, {"accepted_ratio": 0.4})],
      budget=120, bounds="3-5 dots anywhere"),
    H("empty", empty, quick=["hor", "ver"], bounds="no dots"),
]
ASSUMPTIONS = ["real arithmetic stands for float rounding"]
