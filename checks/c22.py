"""C22 extrema and slopes of one-dimensional profiles."""
from .common import *
from symx.terms import Unsupported
from .c18 import resid


def quad(E, v):
    """coefficients (a, b) of the least-squares a t^2 + b t + c, t = 0.."""
    n = len(v)
    if n == 3:
        a = (v[0] - 2 * v[1] + v[2]) / E.q(2)
        return a, v[1] - v[0] - a
    r = resid(E, list(range(n)), v)
    f = [x - e for x, e in zip(v, r)]
    a = (f[0] - 2 * f[1] + f[2]) / E.q(2)
    return a, f[1] - f[0] - a


def vertex(E):
    n, opt, form = E.cfg
    line = E.load("line")
    q = E.q
    mk = E.int if form == "int" else E.real
    v = [mk("v%d" % i, -100, 100) for i in range(n)]
    arr = E.arr(v, "i8" if form == "int" else None)
    keep = E.snap(arr)
    out = line.locate_subpixel_point(arr, option=opt) if opt != "" else \
        line.locate_subpixel_point(arr)
    a, b = quad(E, v)
    E.assume(E.Or(a >= q("0.01"), a <= q("-0.01")))
    sg = -1 if opt == "max" else 1
    num = -b / (2 * a)
    E.assume(E.And(abs(num) > q("1e-4"), abs(num - n) > q("1e-4")))
    if E.And(a * sg > 0, num >= 0, num <= n - 1):
        E.eq(out, num, "vertex of the fitted parabola")
    elif E.Or(a * sg < 0, num < 0, num > n):
        best = E.min(*v) if sg > 0 else E.max(*v)
        i = 0
        while i < n - 1 and not (v[i] == best):
            i += 1
        E.eq(out, i, "extreme sample")
    E.unchanged(arr, keep, "data untouched")


def slopes(E):
    n, size, norm, form = E.cfg
    line = E.load("line")
    q = E.q
    mk = E.int if form == "int" else E.real
    v = [mk("v%d" % i, -50, 50) if i % 6 in (1, 4, 5) or n < 10 else
         q((i * 7) % 11) for i in range(n)]
    arr = E.arr(v, "i8" if form == "int" else None)
    keep = E.snap(arr)
    kw = {} if size is None else {"size": size}
    if norm is not None:
        kw["norm"] = norm
    out = line.sliding_window_slope(arr, **kw)
    s = min(max(3 if size is None else size, 3), n)
    s += (s + 1) % 2
    r = s // 2
    ref = []
    for i in range(n):
        w = [v[min(max(i + k, 0), n - 1)] for k in range(-r, r + 1)]
        ref.append(abs(sum(k * t for k, t in zip(range(-r, r + 1), w)) /
                       q(sum(k * k for k in range(-r, r + 1)))))
    E.shape_is(out, (n,), "one slope per sample")
    if norm is not False:
        m = sum(ref) / q(n)
        if m > q("0.001"):
            ref = [t / m for t in ref]
        else:
            return
    for a, b in zip(out, ref):
        E.eq(a, b, "absolute slope of the window")
    E.unchanged(arr, keep, "data untouched")


def short(E):
    line = E.load("line")
    v = [E.real("v%d" % i, -50, 50) for i in range(E.cfg)]
    out = E.call(line.sliding_window_slope, E.arr(v))
    exc_is(E, out, (ValueError,), "fewer than 3 samples: ValueError")


def extrema(E):
    n, opt, radius, sub, den, form, fix, sens = E.cfg
    fix = dict(fix)
    line = E.load("line")
    q = E.q
    mk = E.int if form == "int" else E.real
    v = [q(fix[i]) if i in fix else mk("v%d" % i, 1, 100) for i in range(n)]
    if form == "neg":
        v = [-t for t in v]
    kw = {"sensitive": q(sens) if sens else
          E.real("sensitive", q("0.02"), q("0.9"))}
    if sens == "":
        sens, kw = q("0.1"), {}
    else:
        sens = kw["sensitive"]
    if radius is None:
        radius = 7
    else:
        kw["radius"] = radius
    arr = E.arr(v, "i8" if form == "int" else None)
    keep = E.snap(arr)
    out = line.get_local_extrema_points(
        arr, option=opt, denoise=den, norm=False, subpixel=sub, **kw)
    E.unchanged(arr, keep, "data untouched")
    g = v
    if den:
        if E.sym:
            rec = [d for k, d in E.records if k == "gaussian_filter"]
            E.check(len(rec) == 1, "smoothed once")
            E.eq(rec[0]["args"][0], 3, "smoothing")
            for a, b in zip(rec[0]["input"], v):
                E.eq(a, b, "the data are smoothed")
            g = list(rec[0]["out"])
            for t in g:
                E.assume(E.And(t > 0, t <= 100))
        else:
            from scipy.ndimage import gaussian_filter
            g = [t.item() for t in gaussian_filter(keep, 3)]
    if opt == "max":
        top = E.max(*g)
        g = [top - t for t in g]
    r = min(max(radius, 1), n // 4)
    want = []
    for i in range(r, n - r - 1):
        w = g[i - r:i + r + 1]
        low = E.And(*[g[i] <= t for t in w])
        if not E.sym:        # a tie within rounding is not decided
            E.assume(all(t == g[i] or abs(t - g[i]) > 1e-6 for t in w))
        if not low:
            continue
        w = desc(E, w)
        m = sum(w[:r]) / q(r)
        if not (m != 0):
            continue
        if not E.sym:
            E.assume(abs(abs((g[i] - m) / m) - sens) > 1e-6)
        if abs((g[i] - m) / m) > sens:
            want.append(i)
    last = len(out) - len(want)
    if E.cfg[0] - r - 1 >= r:       # the last candidate is left open
        E.check(E.Or(last == 0, last == 1), "number of extrema")
    for k, i in enumerate(want):
        if k >= len(out):
            E.fail("number of extrema")
            return
        if sub:
            a, b = quad(E, g[i - 1:i + 2])
            if not (a > q("0.0001")):
                continue
            E.eq(out[k], i - 1 - b / (2 * a), "refined position")
        else:
            E.eq(out[k], i, "position of the extremum")
    if last == 1:
        E.check(abs(out[len(want)] - (n - r - 1)) <= 1, "number of extrema")


def desc(E, w):
    """values in descending order"""
    w = list(w)
    for i in range(1, len(w)):
        for j in range(i, 0, -1):
            a, b = w[j - 1], w[j]
            w[j - 1], w[j] = E.max(a, b), E.min(a, b)
    return w


def valleys(E):
    """dips over a tilted background are found at their place, whatever the
    intensity scale and their depth"""
    n, at, opt, tilt, sub, free = E.cfg
    line = E.load("line")
    q = E.q
    k = E.real("scale", q("0.1"), 10) if free == "scale" else q(7)
    d = E.real("depth", q("0.35"), q("0.8")) if free == "depth" else \
        q("0.5")
    v = []
    for i in range(n):
        b = 1 + q(tilt) * q(i) / q(n) + q(i % 3) / 1000
        f = 1
        for p in at:
            if abs(i - p) <= 1:
                f = 1 - d * (1 if i == p else q("0.6"))
                if opt == "max":
                    f = 1 + d * (1 if i == p else q("0.6"))
        v.append(k * b * f)
    arr = E.arr(v)
    keep = E.snap(arr)
    out = line.get_local_extrema_points(arr, option=opt, radius=3,
                                        denoise=False, subpixel=sub)
    E.check(len(out) == len(at), "every dip and nothing else")
    for a, p in zip(out, at):
        E.check(abs(a - p) <= (q("0.2") if sub else 0), "at its place")
    E.unchanged(arr, keep, "data untouched")


def good(E):
    """of the peaks given, those stay whose window is fitted well by a peak
    at its middle (and without offset, when asked for)"""
    data, at, radius, use, par, bad = E.cfg
    n = len(data)
    line = E.load("line")
    q = E.q
    v = [q(t) for t in data]
    arr = E.arr(v)
    keep = E.snap(arr)
    tol = E.real("tol", q("0.05"), 3)
    c = E.real("c", -6, 6) if par[1] is None else q(par[1])
    d = E.real("d", -2, 2) if par[2] is None else q(par[2])
    a = q(par[0])
    seen = []

    def fit(f, x, y, p0=None, **k):
        seen.append((f, list(x), list(y)))
        if bad == "fails":
            raise RuntimeError("Optimal parameters not found")
        out = E.arr([a, q(1), c, d])
        return out, E.arr([[q(0)] * 4] * 4)

    E.patch(line, "curve_fit", fit)
    kw = {} if use is None else {"use_offset": use}
    got = line.select_good_peaks(arr, list(at), tol=tol, radius=radius, **kw)
    E.unchanged(arr, keep, "data untouched")
    win = {}
    want = []
    ref = [i for i in at if min(n, i + radius + 1) - max(0, i - radius) > 3]
    if bad == "flat":
        E.check(len(got) == 0, "a flat window has no peak")
        return
    if len(seen) != len(ref):
        raise Unsupported("the peaks are fitted in another way")
    if bad == "fails":
        E.check(len(got) == 0, "peaks that cannot be fitted are dropped")
        return
    for i, (f, x, y) in zip(ref, seen):
        w = v[max(0, i - radius):min(n, i + radius + 1)]
        m = sum(w) / q(len(w))
        var = sum((t - m) * (t - m) for t in w) / q(len(w))
        lo = min(w)
        if len(y) != len(w):
            E.fail("the window reaches the radius to both sides")
            return
        for s, t in zip(y, w):
            E.eq(s * s * var, (t - lo) * (t - lo), "window over its spread",
                 tol=q("1e-6"))
        for j, s in enumerate(x):
            E.eq(s, x[0] + j, "positions in the window")
        err = [E.abs(e - t) for e, t in zip(f(E.arr(x), a, q(1), c, d), y)]
        err = desc(E, err)[::-1]
        k = q("0.8") * (len(w) - 1)
        b = int(k)
        miss = err[b] + (k - b) * (err[min(b + 1, len(w) - 1)] - err[b])
        E.assume(E.abs(miss - tol) > q("1e-6"))
        E.assume(E.abs(E.abs(c) - radius // 2) > q("1e-6"))
        E.assume(E.abs(E.abs(d) - tol) > q("1e-6"))
        if not E.And(miss < tol, E.abs(c) < radius // 2):
            continue
        if use is not False and not E.And(E.abs(d) < tol):
            continue
        want.append(i)
    E.check(len(got) == len(want), "number of peaks kept")
    for s, i in zip(got, want):
        E.eq(s, i, "peak kept")


F3 = tuple((i, 20 + (i * 17) % 30) for i in range(13) if i not in (3, 6, 8))
F7 = tuple((i, 40 + (i * 17) % 20) for i in range(30) if i != 14)
EX = [(6, "min", 1, False, False, "real", (), "0.1"),
      (6, "min", 1, True, False, "real", (), "0.3"),
      (5, "min", 1, True, False, "real", (), None),
      (6, "max", 1, False, False, "real", ((0, 40),), "0.1"),
      (5, "max", 1, True, False, "int", (), "0.1"),
      (5, "max", 1, False, False, "real", (), None),
      (8, "min", 2, False, False, "real", ((0, 70), (1, 20), (5, 31), (7, 50)),
       "0.1"),
      (8, "max", 2, True, False, "real", ((0, 5), (1, 20), (4, 31), (7, 20)), "0.1"),
      (8, "min", 9, True, False, "real", ((1, 50), (2, 22), (6, 10), (7, 60)),
       "0.1"),
      (6, "min", 9, False, False, "real", (), "0.2"),
      (6, "min", 1, False, False, "neg", (), "0.2"),
      (13, "min", 3, False, False, "real",
       F3, "0.5"),
      (30, "min", None, False, False, "real", F7, ""),
      (5, "min", 1, True, True, "real", (), "0.1"),
      (5, "max", 1, False, True, "real", (), "0.1")]
HARNESSES = [
    H("vertex", vertex,
      quick=[(3, "min", "real"), (3, "max", "real"), (3, "", "int"),
             (4, "min", "real"), (5, "max", "real")],
      thorough=[(n, o, f) for n in (3, 4, 5, 6) for o in ("min", "max")
                for f in ("real", "int")],
      budget=60, bounds="3-6 samples"),
    H("slopes", slopes,
      quick=[(3, None, None, "real"), (5, 3, False, "real"),
             (6, 4, False, "int"), (6, 5, True, "real"), (4, 9, False, "int"),
             (5, 1, False, "real"), (5, 2, False, "real"),
             (5, 0, True, "real"), (24, 3, False, "real"),
             (24, None, False, "real"), (5, 3, True, "int")],
      thorough=[(n, s, m, f) for n in (3, 5, 8) for s in (2, 3, 5, 6)
                for m in (True, False) for f in ("real", "int")],
      budget=90, bounds="3-8 samples, windows of 3-7"),
    H("short", short, quick=[0, 1, 2], bounds="fewer than 3 samples"),
    H("extrema", extrema, quick=EX,
      thorough=EX + [(8, "min", 1, True, False, "real", (), None),
                     (8, "max", 1, True, False, "real", (), None),
                     (10, "min", 2, True, False, "real", ((0, 4), (9, 8)), "0.1"),
                     (9, "max", 2, False, False, "real", (), "0.05")],
      budget=150, bounds="7-10 samples, radius 1-2, any sensitivity"),
    H("good", good,
      quick=[((3, 3, 3, 1, 2, 0, 5, 6, 4, 1, 3, 1, 2, 0), (7,), 3, None, ("0", None, None), ""),
             ((3, 0, 3, 3, 0, 5, 6, 4, 2, 1, 0, 2, 2, 3), (6,), 4, False, ("0", None, None), ""),
             ((3, 2, 2, 6, 4, 2, 2, 2, 2, 6, 2, 2, 0, 2), (3, 9), 2, True, ("2.5", "0.3", None), ""),
             ((4, 6, 4, 0, 3, 1, 0, 0, 5, 5, 2, 1), (1, 9), 4, False, ("0", None, "0.25"), ""),
             ((9, 4, 2, 2, 5, 5, 3, 1, 0), (0, 5), 2, True, ("3", "0.1", None), ""),
             ((0, 0, 1, 2, 6, 2, 1, 0, 0), (4,), 2, True, ("1", "0", "0"),
              "fails"),
             ((2,) * 9, (4,), 3, True, ("1", "0", "0"), "flat")],
      budget=60, bounds="9-14 samples, 1-2 peaks, radius 2-4, any tolerance "
      "and any result of the fit"),
    H("valleys", valleys,
      quick=[(24, (7, 15), "min", "0", False, "depth"),
             (24, (7, 15), "min", "0.3", True, "scale"),
             (24, (6, 13, 18), "max", "0", False, "scale"),
             (24, (6, 16), "max", "0", True, "depth"),
             (24, (6, 16), "min", "-0.3", False, "scale")],
      budget=60, bounds="24 samples, any scale and depth"),
]
ASSUMPTIONS = ["real arithmetic stands for float rounding",
               "numpy.polyfit returns the exact least-squares solution",
               "gaussian_filter is an opaque function of its input"]
