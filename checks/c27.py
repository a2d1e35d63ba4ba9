"""C27 images are saved and loaded without changing the picture."""
from .common import *


def _cells(shape):
    if len(shape) == 2:
        return [(i, j) for i in range(shape[0]) for j in range(shape[1])]
    return [(i, j, k) for i in range(shape[0]) for j in range(shape[1])
            for k in range(shape[2])]


def _v(E, x):
    return x if E.sym else float(x)


def _mean(E, a, i, j, n):
    return sum(_v(E, a[i, j, k]) for k in range(n)) / E.q(n)


def load(E):
    shape, dtype, ext, average = E.cfg
    d = E.fs_dir()
    a = E.image("a", shape, dtype)
    E.fs_image(d + "/p" + ext, a)
    losa = E.load("losa")
    out = losa.load_image(d + "/p" + ext) if average is None else \
        losa.load_image(d + "/p" + ext, average=average)
    if len(shape) == 3 and average is not False:
        E.shape_is(out, shape[:2], "one value per pixel")
        for i in range(shape[0]):
            for j in range(shape[1]):
                m = _mean(E, a, i, j, shape[2])
                E.eq(out[i, j], m, "mean of the channels")
    else:
        E.shape_is(out, shape, "size of the picture")
        for c in _cells(shape):
            E.eq(out[c], a[c], "pixel")


def tif(E):
    """tif keeps the values of 2D data"""
    shape, dtype, ext = E.cfg
    d = E.fs_dir()
    losa = E.load("losa")
    a = E.image("a", shape, dtype)
    keep = E.snap(a)
    p = losa.save_image(d + "/p" + ext, a)
    out = losa.load_image(str(p))
    E.shape_is(out, shape, "size of the picture")
    for c in _cells(shape):
        E.eq(out[c], a[c], "pixel")
    E.unchanged(a, keep, "image untouched")


def png8(E):
    """8-bit data are written as they are"""
    shape, ext, = E.cfg
    d = E.fs_dir()
    losa = E.load("losa")
    a = E.image("a", shape, "u1")
    keep = E.snap(a)
    p = losa.save_image(d + "/p" + ext, a)
    out = E.fs_get_image(str(p))
    E.shape_is(out, shape, "size of the picture")
    for c in _cells(shape):
        E.eq(out[c], a[c], "pixel")
    E.unchanged(a, keep, "image untouched")


def scale(E):
    """other data are stretched linearly over 0..255"""
    shape, dtype, ext = E.cfg
    d = E.fs_dir()
    losa = E.load("losa")
    tiny = dtype == "tiny"
    dtype = "f8" if tiny else dtype
    lim = (0, E.q("1e-4")) if tiny else dict(i1=(-128, 127), f4=(-1000, 1000), f8=(-1000, 1000), u2=(0, 65535),
               i2=(-32768, 32767), i4=(-10 ** 6, 10 ** 6),
               i8=(-10 ** 6, 10 ** 6))[dtype]
    mk = E.real if dtype[0] == "f" else E.int
    vals = {c: mk("v" + "_".join(map(str, c)), *lim) for c in _cells(shape)}
    rows = [[vals[i, j] for j in range(shape[1])] if len(shape) == 2 else
            [[vals[i, j, k] for k in range(shape[2])]
             for j in range(shape[1])] for i in range(shape[0])]
    a = E.arr(rows, dtype)
    keep = E.snap(a)
    lo, hi = E.min(*vals.values()), E.max(*vals.values())
    E.assume(hi - lo > E.q("1e-7" if tiny else "1/4"))
    p = losa.save_image(d + "/p" + ext, a)
    out = E.fs_get_image(str(p))
    E.shape_is(out, shape, "size of the picture")
    for c, v in vals.items():
        # |out - 255 * (v - lo) / (hi - lo)| <= 1
        e = _v(E, out[c]) * (hi - lo) - 255 * (v - lo)
        E.check(E.And(e <= hi - lo, e >= lo - hi), "grey level",
                alt=E.And(e <= E.q("1.01") * (hi - lo),
                          e >= -E.q("1.01") * (hi - lo)))
    E.unchanged(a, keep, "image untouched")


def channels(E):
    """tif of multichannel data holds their mean"""
    shape, dtype = E.cfg
    d = E.fs_dir()
    losa = E.load("losa")
    a = E.image("a", shape, dtype)
    p = losa.save_image(d + "/p.tif", a)
    out = losa.load_image(str(p))
    if shape[0] < shape[2]:           # the channels come first
        E.shape_is(out, shape[1:], "one value per pixel")
        for i in range(shape[1]):
            for j in range(shape[2]):
                m = sum(_v(E, a[k, i, j]) for k in range(shape[0])) / \
                    E.q(shape[0])
                E.eq(out[i, j], m, "mean of the channels")
        return
    E.shape_is(out, shape[:2], "one value per pixel")
    for i in range(shape[0]):
        for j in range(shape[1]):
            m = _mean(E, a, i, j, shape[2])
            E.eq(out[i, j], m, "mean of the channels")


def bad(E):
    kind, = E.cfg
    d = E.fs_dir()
    losa = E.load("losa")
    if kind == "absent":
        r = E.call(losa.load_image, d + "/no.png")
    else:
        E.fs_file(d + "/t.png", True)
        r = E.call(losa.load_image, d + "/t.png")
    E.check(r.is_a(ValueError), "reported as ValueError")


HARNESSES = [
    H("load", load, quick=[((2, 3), "u1", ".png", None),
                           ((2, 3), "f4", ".tif", None),
                           ((4, 5, 3), "u1", ".png", None),
                           ((2, 4, 3), "u1", ".png", True),
                           ((4, 2, 4), "u1", ".png", True),
                           ((1, 1, 3), "u1", ".png", None),
                           ((3, 3, 3), "u1", ".tif", True),
                           ((2, 5, 3), "u1", ".tif", False)],
      bounds="pictures of up to 4x5 pixels with 1, 3 or 4 channels"),
    H("tif", tif, quick=[((2, 3), "f4", ".tif"), ((1, 4), "u1", ".tiff"),
                         ((3, 2), "u2", ".tif"), ((2, 2), "i4", ".tif"),
                         ((2, 2), "f4", ".tiff")],
      bounds="pictures of up to 6 pixels"),
    H("png8", png8, quick=[((2, 3), ".png"), ((3, 1), ".bmp"),
                           ((2, 2, 3), ".png")],
      bounds="pictures of up to 6 pixels"),
    H("scale", scale, quick=[((1, 3), "f4", ".png"), ((2, 2), "f8", ".png"),
                             ((1, 3), "u2", ".png"), ((1, 3), "i2", ".bmp"),
                             ((1, 2), "i4", ".png"),
                             ((1, 1, 3), "f4", ".png"),
                             ((1, 2), "i8", ".png"), ((1, 3), "i1", ".png"),
                             ((1, 3), "tiny", ".png")],
      bounds="pictures of 2-4 values, any values"),
    H("channels", channels, quick=[((4, 5, 3), "f4"), ((6, 4, 3), "f4"), ((3, 4, 5), "f4"),
                                   ((4, 4, 3), "u1")],
      bounds="pictures larger than their number of channels"),
    H("bad", bad, quick=[("absent",), ("text",)], bounds="unreadable files"),
]
ASSUMPTIONS = ["PIL stores and returns the pixels of lossless formats (the "
               "lossy jpg is outside)",
               "real arithmetic stands for float rounding"]
