"""C23 points on the lines of a line pattern: where they are reported."""
from .common import *
from .c21 import reach


def stub_norm(E, img):
    def f(mat, *a, **k):
        E.state["norm_in"] = mat
        return img
    return f


def cross(E):
    axis, h, w, slope, dist, ratio, off, flags = E.cfg
    flags = dict(flags)
    line, prep = E.load("line"), E.load("prep")
    q = E.q
    s = E.real("slope", q(slope[0]), q(slope[1])) \
        if isinstance(slope, tuple) else q(slope)
    c = 1 / E.sqrt(1 + s * s)
    n, m = (h, w) if axis == "hor" else (w, h)    # along, across
    calls = []
    R = E.real("sensitive", q("0.01"), q("0.5"))
    frac = [E.real("r%d" % k, 0, 1) for k in range(2)]

    def stub(list_data, option="min", radius=7, sensitive=0.1, denoise=True,
             norm=True, subpixel=True, select_peaks=False, **kw):
        calls.append((list_data, option, radius, sensitive, denoise, norm,
                      subpixel, select_peaks, kw))
        k = len(calls) - 1
        if k % 4 == 3:
            return E.arr([])
        return E.arr([(k % (n - 1)) + frac[0]] if k % 4 == 2 else
                     [1 + frac[0], n - 2 + frac[1]])
    E.patch(line, "get_local_extrema_points", stub)
    img = E.image("m", (h, w), "f8")
    mode = flags.pop("image", "raw")
    if mode == "bright":
        img = E.arr([[q((i * 7 + j * 13) % 11) for j in range(w)]
                     for i in range(h)])
    keep = E.snap(img)
    base = img
    kw = dict(flags)
    kw.update(norm=mode == "norm", denoise=mode == "denoise",
              bgr="bright" if mode == "bright" else "dark")
    if mode == "norm":
        base = E.image("n", (h, w), "f8")
        E.patch(prep, "normalization_fft", stub_norm(E, base))
    if ratio is not None:
        kw["ratio"] = q(ratio)
    if off is not None:
        kw["offset"] = off
    f = getattr(line, "get_cross_points_%s_lines" % axis)
    out = f(img, s, q(dist), sensitive=R, **kw)
    E.unchanged(img, keep, "image untouched")
    if mode == "norm":
        E.check(E.state.get("norm_in") is not None, "normalised")
    if mode == "bright":
        base = 10 - img
    if mode == "denoise":
        if E.sym:
            rec = [d for k, d in E.records if k == "gaussian_filter"]
            E.check(len(rec) == 1, "smoothed once")
            E.same(rec[0]["input"], img, "the image is smoothed")
            base = rec[0]["out"]
        else:
            from scipy.ndimage import gaussian_filter
            base = gaussian_filter(img, 3)
    # starts of the lines of slope s across the lines to be found
    t = s if axis == "hor" else -s     # direction of increasing "across"
    if axis == "hor":                  # x = x0 + s*y
        lo = 0 if not (s < 0) else E.floor(n * -s)
        hi = m - 1 - (E.ceil(n * s) if s > 0 else 0)
    else:                              # y = y0 + s*x
        lo = 0 if not (s < 0) else E.ceil(n * -s)
        hi = m - 1 - (E.floor(n * s) if s > 0 else 0)
    o = min(max(off or 0, 0), min(h, w) // (3 if axis == "hor" else 8))
    st = q(dist) * q("0.3" if ratio is None else ratio)
    starts, p = [], lo + o
    while p < hi - o:
        starts.append(p)
        p = p + st
    E.check(len(calls) == len(starts), "number of lines across")
    if len(calls) != len(starts):
        return
    step = E.floor(n / c) / q(n - 1)
    pos = 0
    for k, p in enumerate(starts):
        list_data, opt, radius, sens, den, nrm, sub, sel, kws = calls[k]
        E.check(opt == "max", "lines are maxima of the inverted image")
        E.eq(sens, R, "sensitivity passed on")
        E.check(radius == flags.get("radius", 11) and
                bool(sub) == flags.get("subpixel", True) and
                bool(sel) == flags.get("select_peaks", False), "options")
        E.check(bool(den) == (mode != "denoise") and
                bool(nrm) == (mode != "norm"),
                "smoothing and normalisation are not applied twice")
        P = []
        for j in range(n):
            u = E.clip(j * step * c, 0, n - 1)
            v = E.clip(p + j * step * c * s, 0, m - 1)
            P.append((u, v) if axis == "hor" else (v, u))
        r = [] if k % 4 == 3 else (
            [(k % (n - 1), frac[0])] if k % 4 == 2 else
            [(1, frac[0]), (n - 2, frac[1])])
        for i, fr in r:
            if pos >= len(out):
                return E.fail("a point per extremum")
            for z in (0, 1):
                a, b = P[i][z], P[i + 1][z]
                E.eq(out[pos][z], a + fr * (b - a),
                     "where the profile was taken")
            pos += 1
        lo2, hi2 = [E.min(*[t[z] for t in P]) for z in (0, 1)], \
            [E.max(*[t[z] for t in P]) for z in (0, 1)]
        if flags.get("chessboard"):
            a = E.atan(s) * 180 / E.pi
            pr = line.get_tilted_profile(
                base, p, a if axis == "hor" else -a,
                "vertical" if axis == "hor" else "horizontal")[2]
            pr = line.sliding_window_slope(pr, size=3)
            for a, b in zip(list_data, pr):
                E.eq(a, b, "slopes of the profile")
            E.shape_is(list_data, (n,), "one slope per sample")
            continue
        E.shape_is(list_data, (n,), "one sample per row (column)")
        if mode in ("raw", "norm"):
            crop = () if E.sym else [(lo2[z], hi2[z]) for z in (0, 1)]
            for j in range(n):
                E.sample_eq(list_data[j], base, P[j][0], P[j][1], 3,
                            "nearest", "profile", crop=crop)
        else:
            z = 1 if axis == "hor" else 0
            a, b = int(E.floor(lo2[z])), int(E.ceil(hi2[z])) + 1
            sub = base[:, a:b] if axis == "hor" else base[a:b]
            for j in range(n):
                y, x = P[j]
                E.sample_eq(list_data[j], sub, y - (a if z == 0 else 0),
                            x - (a if z == 1 else 0), 3, "nearest",
                            "profile")
    E.check(len(out) == pos, "a point per extremum")


S = [("hor", 7, 9, "0", 4, 1, None, ()),
     ("ver", 9, 7, "0", 4, 1, None, ()),
     ("hor", 6, 12, ("0.11", "0.16"), 5, "0.6", None, ()),
     ("ver", 12, 6, ("0.11", "0.16"), 5, "0.6", None, ()),
     ("hor", 6, 12, "-28/195", 4, None, 3, ()),
     ("ver", 16, 8, ("-0.12", "-0.07"), 6, "0.5", 2, ()),
     ("hor", 6, 8, "0.1", 5, "0.6", None, (("image", "bright"),
                                          ("radius", 5))),
     ("ver", 8, 6, "-0.1", 5, "0.6", None, (("image", "bright"),
                                           ("subpixel", False))),
     ("hor", 6, 8, "0", 5, "0.6", None, (("image", "denoise"),)),
     ("ver", 8, 6, "28/195", 5, "0.6", 1, (("image", "denoise"),)),
     ("hor", 6, 8, "-28/195", 5, "0.6", None, (("image", "norm"),)),
     ("ver", 9, 6, "20/99", 5, "0.6", None, ()),
     ("hor", 13, 7, "0", 2, "0.5", 3, ()),
     ("ver", 9, 17, "0", 3, "0.5", 3, ()),
     ("hor", 6, 12, "-20/99", 4, "0.9", 1, ()),
     ("ver", 11, 6, "-28/195", 3, "0.9", 0, ()),
     ("ver", 8, 6, "28/195", 5, "0.6", None, (("image", "norm"),
                                             ("chessboard", True)))]
HARNESSES = [
    H("cross", cross, quick=S, budget=100,
      bounds="images 6-16 wide, slopes within +-0.16, any extrema"),
]
ASSUMPTIONS = ["real arithmetic stands for float rounding",
               "get_local_extrema_points (see C22) returns any positions",
               "normalization_fft and gaussian_filter are opaque"]
