"""C02 padding only enlarges the canvas of a corrected image."""
from .common import *

PM = ["constant", "edge", "reflect", "symmetric", "wrap"]


def fn(E, which):
    util = E.load("util")
    return util, getattr(util, {"color": "unwarp_color_image_backward",
                                "cv2": "unwarp_image_backward_cv2"}[which])


def padded(E, out, m, h, w, ch, pads, pm, xc, yc, cs, order, mode, lib, at):
    t, b, l, r = pads
    hh, ww = h + t + b, w + l + r
    E.shape_is(out, (hh, ww) if ch is None else (hh, ww, ch),
               "canvas enlarged by the padding")
    for i, j in at:
        y, x = backward_source(E, i, j, hh, ww, xc + l, yc + t, cs)
        for c in ([None] if ch is None else range(ch)):
            img = E.pad(m if c is None else m[:, :, c],
                        [(t, b), (l, r)], pm)
            o = E.at(out, i, j) if c is None else E.at(out, i, j, c)
            E.sample_eq(o, img, y, x, order, mode, "pixel", lib)


def explicit(E):
    """int, tuple and list paddings; symbolic sizes and amounts"""
    which, form, ch, n = E.cfg
    util, f = fn(E, which)
    h, w = E.big_int("H", 2, 400), E.big_int("W", 2, 400)
    m = E.image("m", (h, w) if ch is None else (h, w, ch), "f4")
    xc, yc = E.real("xc", -50, 450), E.real("yc", -50, 450)
    cs = coefs(E, n)
    pm = E.choice("padmode", PM)
    if form == "none":
        pads, arg = (0, 0, 0, 0), False
        if E.choice("how", [0, 1]):
            arg = 0
    elif form == "int":
        p = E.int("p", 0, 60)
        pads, arg = (p,) * 4, p
    else:
        pads = tuple(E.int("p%d" % k, 0, 60) for k in range(4))
        arg = pads if form == "tuple" else list(pads)
    if pm in ("reflect", "symmetric", "wrap"):
        for k, p in enumerate(pads):
            E.assume(p < (h if k < 2 else w))
    kw = {"pad": arg, "pad_mode": pm}
    order, mode = (1, 0) if which == "cv2" else (
        E.choice("order", [1, 3]), E.choice("mode", ["reflect", "constant"]))
    if which == "color":
        kw.update(order=order, mode=mode)
    i, j = E.pixel(h + pads[0] + pads[1], w + pads[2] + pads[3], 600)
    out = f(m, xc, yc, cs, **kw)
    padded(E, out, m, h, w, ch, pads, pm, xc, yc, cs, order, mode,
           "cv" if which == "cv2" else "nd", [(i, j)])


def exact(E):
    """small images, concrete amounts, every pixel, contents of the padding"""
    which, (h, w), ch, pads, n = E.cfg
    util, f = fn(E, which)
    m = E.image("m", (h, w) if ch is None else (h, w, ch), "f4")
    xc, yc = E.real("xc", -5, 8), E.real("yc", -5, 8)
    cs = coefs(E, n)
    pm = E.choice("padmode", PM[:3])
    keep = E.snap(m)
    arg = pads if isinstance(pads, tuple) else pads
    full = pads if isinstance(pads, tuple) else (pads,) * 4
    out = f(m, xc, yc, cs, pad=arg, pad_mode=pm)
    t, b, l, r = full
    at = [(i, j) for i in range(h + t + b) for j in range(w + l + r)]
    padded(E, out, m, h, w, ch, full, pm, xc, yc, cs, 1,
           0 if which == "cv2" else "reflect",
           "cv" if which == "cv2" else "nd", at)
    E.unchanged(m, keep, "input untouched")


def auto(E):
    """pad=True: the corners of the input fit on the canvas"""
    which, ch, n, nf = E.cfg
    proc = E.load("proc")
    fwd = [E.real("f%d" % k, -1, 2) for k in range(nf)]
    seen = []

    def stub(list_fact, *a, **k):
        seen.append((list(list_fact), a, k))
        return E.arr(fwd)
    E.patch(proc, "transform_coef_backward_and_forward", stub)
    util, f = fn(E, which)
    h, w = E.big_int("H", 4, 200), E.big_int("W", 4, 200)
    m = E.image("m", (h, w) if ch is None else (h, w, ch), "f4")
    xc, yc = E.real("xc", -50, 250), E.real("yc", -50, 250)
    cs = coefs(E, n)
    cor = [radial(E, x, y, xc, yc, fwd) for y in (0, h - 1)
           for x in (0, w - 1)]
    (xtl, ytl), (xtr, ytr), (xbl, ybl), (xbr, ybr) = cor
    v = (-E.min(ytl, ytr), E.max(ybl, ybr) - h, -E.min(xtl, xbl),
         E.max(xtr, xbr) - w)
    for q in v:
        E.assume(q <= 60)
    res = E.call(f, m, xc, yc, cs, pad=True, pad_mode="edge")
    E.check(not res.raised, "automatic padding works")
    out = res.value
    pads = [E.truncs(q) if q > 0 else [0] for q in v]
    hh = [(t, b) for t in pads[0] for b in pads[1]]
    ww = [(l, r) for l in pads[2] for r in pads[3]]
    if not E.sym:
        hh = [p for p in hh if p[0] + p[1] + h == out.shape[0]] or hh
        ww = [p for p in ww if p[0] + p[1] + w == out.shape[1]] or ww
    (t, b), (l, r) = hh[0], ww[0]
    i, j = E.pixel(h + t + b, w + l + r, 400)
    padded(E, out, m, h, w, ch, (t, b, l, r), "edge", xc, yc, cs, 1,
           0 if which == "cv2" else "reflect",
           "cv" if which == "cv2" else "nd", [(i, j)])
    if seen:
        E.unchanged(seen[0][0], list(cs),
                    "the model itself is inverted for the padding")


def reach(E):
    """pad=True: the model is inverted over the whole image"""
    which, (h, w) = E.cfg
    proc = E.load("proc")
    seen = []

    def stub(list_fact, ref_points=None, *a, **k):
        seen.append(ref_points)
        return E.arr([1, 0])
    E.patch(proc, "transform_coef_backward_and_forward", stub)
    util, f = fn(E, which)
    m = E.image("m", (h, w), "f4")
    xc = E.choice("xc", [-w, 0, w // 2, w - 1, 2 * w])
    yc = E.choice("yc", [-h, 0, h // 3, h - 1, 2 * h])
    f(m, xc, yc, coefs(E, 2), pad=True)
    far = max((x - xc) ** 2 + (y - yc) ** 2 for x in (0, w - 1)
              for y in (0, h - 1))
    for pts in seen:
        if pts is None:
            continue
        q = [E.abs(p[0]) * E.abs(p[0]) + E.abs(p[1]) * E.abs(p[1])
             for p in pts]
        E.check(E.Or(*[v * 10 >= far * 8 for v in q]),
                "inverted up to the corners of the image")


def invalid(E):
    """malformed paddings are refused"""
    which, = E.cfg
    util, f = fn(E, which)
    m = E.image("m", (3, 4), "f4")
    xc, yc = E.real("xc", -5, 8), E.real("yc", -5, 8)
    cs = coefs(E, 2)
    a = [E.int("p%d" % k, 0, 3) for k in range(5)]
    bad = E.choice("bad", [0, 1, 2, 3, 4, 5, 6])
    arg = [tuple(a[:2]), tuple(a[:3]), tuple(a), "4", None, a[:1],
           {"top": 1}][bad]
    res = E.call(f, m, xc, yc, cs, pad=arg)
    E.check(res.is_a(ValueError), "malformed padding raises ValueError")


HARNESSES = [
    H("explicit", explicit,
      quick=[("color", "none", None, 3), ("color", "int", None, 3),
             ("color", "tuple", None, 3), ("color", "list", 3, 2),
             ("cv2", "none", None, 3), ("cv2", "int", 3, 3),
             ("cv2", "tuple", None, 3), ("cv2", "list", 3, 2)],
      thorough=[(k, f, c, n) for k in ("color", "cv2")
                for f in ("none", "int", "tuple", "list")
                for c in (None, 1, 3, 4) for n in (1, 3, 5)],
      bounds="sizes 2..400, amounts 0..60, centre in [-50,450]^2, one "
             "symbolic pixel, five padding modes"),
    H("exact", exact,
      quick=[("color", (2, 3), None, (1, 0, 2, 1), 2),
             ("color", (3, 2), 3, 1, 2),
             ("cv2", (2, 3), None, (0, 2, 1, 0), 2),
             ("cv2", (3, 2), 3, 1, 2)],
      thorough=[(k, s, c, p, 3) for k in ("color", "cv2")
                for s in ((2, 3), (4, 3)) for c in (None, 3)
                for p in (1, 2, (1, 0, 2, 1), (0, 3, 1, 0), (2, 1, 0, 3))],
      bounds="all pixels of small padded images"),
    H("auto", auto,
      quick=[("color", None, 2, 2), ("cv2", 3, 2, 2), ("color", 3, 2, 1)],
      thorough=[(k, c, n, nf) for k in ("color", "cv2") for c in (None, 3)
                for n, nf in ((2, 1), (2, 2), (3, 3), (4, 5))],
      budget=60,
      bounds="sizes 4..200; the inverted coefficients are arbitrary (1-5 "
             "terms in [-1,2], padding up to 60)"),
    H("reach", reach, quick=[("color", (6, 9)), ("cv2", (8, 5))],
      bounds="6 x 9 and 8 x 5 pixels, 25 centres in and around the image"),
    H("invalid", invalid, quick=[("color",), ("cv2",)],
      bounds="tuples/lists of length 1,2,3,5, strings, None, dict"),
]
ASSUMPTIONS = [
    "real arithmetic stands for float rounding",
    "for pad=True the model inversion is replaced by arbitrary coefficients "
    "(its own correctness is C14)",
]
