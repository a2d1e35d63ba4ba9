"""C01 every pixel of a backward-corrected image is the radial resample of the
input at the model position."""
from .common import *

NDM = ["reflect", "nearest", "constant", "mirror", "wrap"]
FN = {
    "post": ("post", "unwarp_image_backward"),
    "color": ("util", "unwarp_color_image_backward"),
    "cv2": ("util", "unwarp_image_backward_cv2"),
}


def call(E, which, mod, m, xc, yc, cs, order, mode):
    f = getattr(mod, FN[which][1])
    if which == "cv2":
        return f(m, xc, yc, cs, method=order, border=mode)
    return f(m, xc, yc, cs, order=order, mode=mode)


def options(E, which, full):
    if which == "cv2":
        return (E.choice("order", [0, 1, 2, 4] if full else [1, 0]),
                E.choice("mode", [0, 1, 4] if full else [0, 1]))
    return (E.choice("order", [0, 1, 2, 3, 4, 5] if full else [1, 3]),
            E.choice("mode", NDM if full else NDM[:2]))


def pixels(E, which, out, m, h, w, ch, xc, yc, cs, order, mode, at, tag=""):
    lib = "cv" if which == "cv2" else "nd"
    shape = (h, w) if ch is None else (h, w, ch)
    E.shape_is(out, shape, tag + "same shape as the input")
    for i, j in at:
        y, x = backward_source(E, i, j, h, w, xc, yc, cs)
        if ch is None:
            E.sample_eq(E.at(out, i, j), m, y, x, order, mode,
                        tag + "pixel", lib)
        else:
            for c in range(ch):
                E.sample_eq(E.at(out, i, j, c), m[:, :, c], y, x, order,
                            mode, tag + "pixel", lib)


def small(E):
    which, h, w, ch, n, dtype = E.cfg
    mod = E.load(FN[which][0])
    shape = (h, w) if ch is None else (h, w, ch)
    m = E.image("m", shape, dtype)
    xc, yc = E.real("xc", -6, 12), E.real("yc", -6, 12)
    cs = coefs(E, n)
    order, mode = options(E, which, ch is None)
    keep, kc = E.snap(m), list(cs)
    out = call(E, which, mod, m, xc, yc, cs, order, mode)
    at = [(i, j) for i in range(h) for j in range(w)]
    pixels(E, which, out, m, h, w, ch, xc, yc, cs, order, mode, at)
    E.unchanged(m, keep, "input image untouched")
    E.unchanged(cs, kc, "coefficients untouched")


def defaults(E):
    """default arguments: linear interpolation"""
    which, h, w, n = E.cfg
    mod = E.load(FN[which][0])
    m = E.image("m", (h, w), "f4")
    xc, yc = E.real("xc", -6, 12), E.real("yc", -6, 12)
    cs = coefs(E, n)
    out = getattr(mod, FN[which][1])(m, xc, yc, E.arr(cs))
    order, mode = (1, 0) if which == "cv2" else (1, "reflect")
    at = [(i, j) for i in range(h) for j in range(w)]
    pixels(E, which, out, m, h, w, None, xc, yc, cs, order, mode, at)


def ints(E):
    """integer centre"""
    which, h, w, n = E.cfg
    mod = E.load(FN[which][0])
    m = E.image("m", (h, w), "u1")
    xc, yc = E.int("xc", -6, 12), E.int("yc", -6, 12)
    cs = coefs(E, n)
    out = getattr(mod, FN[which][1])(m, xc, yc, tuple(cs))
    order, mode = (1, 0) if which == "cv2" else (1, "reflect")
    at = [(i, j) for i in range(h) for j in range(w)]
    pixels(E, which, out, m, h, w, None, xc, yc, cs, order, mode, at)


def big(E):
    """any image size"""
    which, ch, n = E.cfg
    mod = E.load(FN[which][0])
    if which == "cv2":
        h, w = sizes(E, top=30000)
    else:
        h, w = sizes(E)
    i, j = E.pixel(h, w)
    m = E.image("m", (h, w) if ch is None else (h, w, ch), "f4")
    xc, yc = E.real("xc", -100, 70000), E.real("yc", -100, 70000)
    cs = coefs(E, n)
    order, mode = options(E, which, False)
    out = call(E, which, mod, m, xc, yc, cs, order, mode)
    pixels(E, which, out, m, h, w, ch, xc, yc, cs, order, mode, [(i, j)])


def twice(E):
    """the second of two calls does not depend on the first"""
    which, (h1, w1), (h2, w2), n = E.cfg
    mod = E.load(FN[which][0])
    res = []
    order, mode = (1, 0) if which == "cv2" else (1, "reflect")
    same = E.choice("same", [0, 1, 2, 3])
    xc, yc = E.real("xc", -6, 12), E.real("yc", -6, 12)
    cs = coefs(E, n)
    for k, (h, w) in enumerate(((h1, w1), (h2, w2))):
        m = E.image("m%d" % k, (h, w), "f4")
        if k and same != 1:
            xc = E.real("xc'", -6, 12)
        if k and same != 2:
            yc = E.real("yc'", -6, 12)
        if k and same != 3:
            cs = coefs(E, n, "d")
        out = getattr(mod, FN[which][1])(m, xc, yc, cs)
        at = [(i, j) for i in range(h) for j in range(w)]
        res.append((out, m, h, w, xc, yc, list(cs), at))
    for k, (out, m, h, w, xc, yc, cs, at) in enumerate(res):
        pixels(E, which, out, m, h, w, None, xc, yc, cs, order, mode, at,
               "call %d " % (k + 1))


HARNESSES = [
    H("small", small,
      quick=[("post", 3, 4, None, 5, "f4"), ("post", 4, 2, None, 2, "f8"),
             ("post", 2, 5, None, 1, "u1"), ("post", 1, 4, None, 3, "f4"),
             ("color", 3, 4, None, 4, "f4"), ("color", 4, 3, 3, 3, "u1"),
             ("color", 2, 3, 1, 2, "f4"), ("color", 3, 2, 4, 5, "f4"),
             ("cv2", 3, 4, None, 4, "f4"), ("cv2", 4, 3, 3, 3, "u1"),
             ("cv2", 2, 3, 4, 5, "f4")],
      thorough=[(k, h, w, c, n, d) for k in ("post", "color", "cv2")
                for h, w in ((3, 4), (5, 3), (6, 6), (1, 5), (7, 2))
                for c in ((None,) if k == "post" else (None, 1, 2, 3, 4))
                for n, d in ((1, "u1"), (3, "f4"), (6, "f8"), (8, "f4"))
                if not (k == "cv2" and d == "f8" and c == 2)],
      bounds="sizes as configured; centre in [-6,12]^2, coefficients in "
             "[-2,2], 1-8 coefficients, all spline orders and modes"),
    H("defaults", defaults,
      quick=[("post", 3, 3, 3), ("color", 3, 3, 3), ("cv2", 3, 3, 3)],
      bounds="default order and mode"),
    H("ints", ints,
      quick=[("post", 3, 4, 3), ("color", 4, 3, 3), ("cv2", 3, 4, 3)],
      bounds="integer centre in [-6,12]^2"),
    H("big", big,
      quick=[("post", None, 5), ("color", None, 4), ("color", 3, 4),
             ("cv2", None, 4), ("cv2", 3, 3)],
      thorough=[(k, c, n) for k in ("post", "color", "cv2")
                for c in ((None,) if k == "post" else (None, 3, 4))
                for n in (1, 2, 3, 4, 5, 6, 8)],
      bounds="symbolic height and width: both <= 6000, or one <= 40 and the "
             "other <= 70000 (30000 for cv2); one symbolic pixel; centre in "
             "[-100,70000]^2"),
    H("twice", twice,
      quick=[("post", (3, 3), (3, 3), 2), ("color", (3, 3), (3, 3), 2),
             ("cv2", (3, 3), (3, 3), 2), ("post", (3, 4), (4, 3), 2)],
      bounds="two calls in one process, parameters partly shared"),
]
ASSUMPTIONS = [
    "real arithmetic stands for float32/float64 rounding",
    "scipy.ndimage.map_coordinates and cv2.remap sample the image at the "
    "given coordinates",
]
