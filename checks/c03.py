"""C03 corrected slices and chunks of a 3D dataset are rows of the corrected
projections."""
from .common import *


def slice_(E):
    d, n, dtype = E.cfg
    post = E.load("post")
    h, w = sizes(E)
    k = E.int("index", 0, 70000)
    j = E.int("j", 0, 70000)
    E.assume(k < h)
    E.assume(j < w)
    m = E.image("v", (d, h, w), dtype)
    xc, yc = E.real("xc", -100, 70000), E.real("yc", -100, 70000)
    cs = coefs(E, n)
    E.probe(j)
    res = E.call(post.unwarp_slice_backward, m, xc, yc, cs, k)
    E.check(not res.raised, "slice is produced")
    E.shape_is(res.value, (d, w), "one row per projection")
    y, x = backward_source(E, k, j, h, w, xc, yc, cs)
    for q in range(d):
        E.sample_eq(E.at(res.value, q, j), m[q], y, x, 1, "reflect",
                    "slice pixel")


def chunk(E):
    d, n, last = E.cfg
    post = E.load("post")
    h, w = sizes(E)
    a = E.int("start", 0, 70000)
    b = E.int("stop", 0, 70000)
    E.assume(a <= b)
    E.assume(b < h)
    i, j = E.int("i", 0, 70000), E.int("j", 0, 70000)
    E.assume(a + i <= b)
    E.assume(b - a <= 500)
    E.assume(j < w)
    m = E.image("v", (d, h, w), "f4")
    xc, yc = E.real("xc", -100, 70000), E.real("yc", -100, 70000)
    cs = coefs(E, n)
    E.probe(i, j)
    E.probe(j)
    arg = b
    if last:
        E.assume(E.And(b == h - 1))
        arg = -1
    res = E.call(post.unwarp_chunk_slices_backward, m, xc, yc, cs, a, arg)
    E.check(not res.raised, "chunk is produced")
    E.shape_is(res.value, (d, b - a + 1, w), "rows start..stop inclusive")
    y, x = backward_source(E, a + i, j, h, w, xc, yc, cs)
    for q in range(d):
        E.sample_eq(E.at(res.value, q, i, j), m[q], y, x, 1, "reflect",
                    "chunk pixel")


def exact(E):
    """small volumes, every pixel, slice and chunk"""
    (d, h, w), n, dtype = E.cfg[:3]
    post = E.load("post")
    m = E.image("v", (d, h, w), dtype)
    xc, yc = E.real("xc", -4, 8), E.real("yc", -4, 8)
    cs = coefs(E, n)
    keep = E.snap(m)
    if len(E.cfg) > 3:
        a, b = E.cfg[3]
        s = post.unwarp_chunk_slices_backward(m, xc, yc, cs, a, b)
        b = b if b >= 0 else h - 1
        E.shape_is(s, (d, b - a + 1, w), "rows start..stop inclusive")
        for i in range(a, b + 1):
            for j in range(w):
                y, x = backward_source(E, i, j, h, w, xc, yc, cs)
                for q in range(d):
                    E.sample_eq(s[q, i - a, j], m[q], y, x, 1, "reflect",
                                "chunk pixel")
        E.unchanged(m, keep, "volume untouched")
        return
    k = E.choice("index", list(range(h)))
    s = post.unwarp_slice_backward(m, xc, yc, cs, k)
    for q in range(d):
        for j in range(w):
            y, x = backward_source(E, k, j, h, w, xc, yc, cs)
            E.sample_eq(s[q, j], m[q], y, x, 1, "reflect", "slice pixel")
    E.unchanged(m, keep, "volume untouched")


def refuse(E):
    d, n = E.cfg
    post = E.load("post")
    h, w = E.big_int("H", 2, 300), E.big_int("W", 2, 300)
    xc, yc = E.real("xc", -100, 400), E.real("yc", -100, 400)
    cs = coefs(E, n)
    a, b = E.int("start", -400, 400), E.int("stop", -400, 400)
    m = E.image("v", (d, h, w), "f4")
    E.assume(b != -1)
    E.assume(E.Or(a < 0, a >= h, b < 0, b >= h))
    res = E.call(post.unwarp_chunk_slices_backward, m, xc, yc, cs, a, b)
    E.check(res.is_a(ValueError), "indices out of range raise ValueError")


def flat(E):
    which, = E.cfg
    post = E.load("post")
    m = E.image("v", (3, 4), "f4")
    xc, yc = E.real("xc", -100, 400), E.real("yc", -100, 400)
    cs = coefs(E, 2)
    k = E.int("k", 0, 2)
    if which == "slice":
        res = E.call(post.unwarp_slice_backward, m, xc, yc, cs, k)
    else:
        res = E.call(post.unwarp_chunk_slices_backward, m, xc, yc, cs, k, k)
    E.check(res.is_a(ValueError), "2D input raises ValueError")


HARNESSES = [
    H("slice", slice_, quick=[(1, 3, "f4"), (2, 1, "u2"), (2, 5, "f4")],
      thorough=[(d, n, t) for d in (1, 2, 3) for n in (1, 2, 3, 4, 5, 6)
                for t in ("f4", "u2")], budget=60,
      bounds="symbolic height and width: both <= 6000, or one <= 40 and the "
             "other <= 70000; depth 1-3; any row index and column"),
    H("chunk", chunk, quick=[(1, 3, False), (2, 2, False), (1, 2, True)],
      thorough=[(d, n, t) for d in (1, 2) for n in (1, 2, 3, 4, 5)
                for t in (False, True)], budget=60,
      bounds="as slice; chunks of up to 501 rows; stop=-1 means the last "
             "row"),
    H("exact", exact, quick=[((1, 3, 3), 2, "f4"), ((2, 4, 2), 1, "f4"),
                             ((2, 4, 2), 1, "f4", (1, 2)),
                             ((1, 3, 2), 2, "f4", (1, -1)),
                             ((1, 3, 2), 2, "f4", (0, 2))],
      thorough=[((1, 3, 3), 2, "f4"), ((2, 4, 2), 1, "f4"),
                ((2, 4, 4), 3, "f4"), ((1, 5, 3), 4, "u2"),
                ((2, 4, 3), 3, "f4", (0, -1)), ((1, 5, 3), 2, "u2", (2, 3))],
      budget=60, bounds="every pixel of small volumes"),
    H("refuse", refuse, quick=[(1, 2)],
      bounds="sizes 2..300, indices in [-400,400]"),
    H("flat", flat, quick=[("slice",), ("chunk",)], bounds="2D input"),
]
ASSUMPTIONS = ["real arithmetic stands for float rounding",
               "numpy.amin/amax of a profile: attained, and a bound at the "
               "probed positions"]
