"""C36 background normalisation in Fourier space."""
import math
from fractions import Fraction

from .common import *

ASSUMPTIONS = ["the discrete Fourier transform is its definition (exact "
               "arithmetic; twiddle factors that are no multiples of 1/2 and "
               "the Gaussian are double precision constants; transforms of "
               "more than 12 points are numpy's, applied to the coefficients "
               "of each symbol)"]


def image(E, h, w, free, form, lo=1, hi=100):
    v = [[E.q(10 + (3 * i + 5 * j + i * j) % 7) for j in range(w)]
         for i in range(h)]
    for n, (i, j) in enumerate(free):
        v[i][j] = E.real("v%d" % n, lo, hi) if form[0] == "f" else \
            E.int("v%d" % n, lo, hi)
    return v


def run(E, v, form, kw):
    m = E.arr(v, form)
    keep = E.snap(m)
    out = E.load("prep").normalization_fft(m, **kw)
    E.shape_is(out, (len(v), len(v[0])), "shape kept")
    E.unchanged(m, keep, "image untouched")
    return out


def source(p, n, mode):
    """pixel shown at position p of the padded axis"""
    if 0 <= p < n:
        return p
    if mode == "edge":
        return min(max(p, 0), n - 1)
    if mode == "wrap":
        return p % n
    if mode == "symmetric":
        p %= 2 * n
        return p if p < n else 2 * n - 1 - p
    if n == 1:
        return 0
    p %= 2 * n - 2
    return p if p < n else 2 * n - 2 - p


def kernel(E, hh, ww, sigma):
    """impulse response of the Gaussian window on a hh x ww spectrum"""
    n2 = 2.0 * sigma * sigma
    if max(hh, ww) > 12:         # the sum below, factor by factor
        import numpy as np

        def one(n):
            k = np.arange(n)
            g = np.exp(-(k - (n - 1) / 2) ** 2 / n2)
            return np.array([g @ np.exp(2j * np.pi * (k - n // 2) * d / n)
                             for d in range(n)]) / n
        m = np.outer(one(hh), one(ww)).real
        return {(d, e): float(m[d, e]) for d in range(hh)
                for e in range(ww)}
    K = {}
    for d in range(hh):
        for e in range(ww):
            s = 0.0
            for k in range(hh):
                for l in range(ww):
                    g = math.exp(-((k - (hh - 1) / 2) ** 2 +
                                   (l - (ww - 1) / 2) ** 2) / n2)
                    s += g * math.cos(2 * math.pi * (
                        (k - hh // 2) * d / hh + (l - ww // 2) * e / ww))
            K[d, e] = s / (hh * ww)
    return K


def background(E, v, sigma, pad, mode):
    h, w = len(v), len(v[0])
    hh, ww = h + 2 * pad, w + 2 * pad
    K = {k: E.q(Fraction(x)) for k, x in kernel(E, hh, ww, sigma).items()}
    at = [[v[source(a - pad, h, mode)][source(b - pad, w, mode)]
           for b in range(ww)] for a in range(hh)]
    return [[sum(at[a][b] * K[(i + pad - a) % hh, (j + pad - b) % ww]
                 for a in range(hh) for b in range(ww))
             for j in range(w)] for i in range(h)]


def normal(E):
    """the image over its smoothed copy, the copy's mean put back"""
    h, w, sigma, pad, mode, form, free = E.cfg[:7]
    sign = E.cfg[7] if len(E.cfg) > 7 else 1
    v = [[sign * x for x in r] for r in image(E, h, w, free, form)]
    if isinstance(sigma, str):
        sigma = float(sigma)
    b = background(E, v, 10 if sigma is None else sigma, pad,
                   mode or "reflect")
    mean = sum(sum(r) for r in b) / E.q(h * w)
    for r in b:
        for x in r:
            E.assume(sign * x > E.q("0.1"))
    kw = {} if pad == 100 else {"pad": pad}
    if sigma is not None:
        kw["sigma"] = sigma
    if mode is not None:
        kw["mode"] = mode
    out = run(E, v, form, kw)
    for i in range(h):
        for j in range(w):
            E.eq(out[i, j] * b[i][j], mean * v[i][j],
                 "image over its background", E.q("1e-6"))


def uniform(E):
    """an image of one value is returned as it is"""
    h, w, form, kw = E.cfg
    c = E.real("c", 1, 1000) if form[0] == "f" else E.int("c", 1, 255)
    if kw.get("sign"):
        kw = dict(kw)
        c = c * kw.pop("sign")
    out = run(E, [[c] * w for _ in range(h)], form, kw)
    for i in range(h):
        for j in range(w):
            E.eq(out[i, j], c, "uniform image unchanged", E.q("1e-6"))


def dark(E):
    """a dark pixel on a dark background stays dark"""
    h, w, sigma, zero, form = E.cfg
    v = image(E, h, w, [(i, j) for i in range(h) for j in range(w)
                        if (i, j) not in zero], form)
    for i, j in zero:
        v[i][j] = E.q(0)
    out = run(E, v, form, {"sigma": sigma, "pad": 0})
    for i, j in zero:
        E.eq(out[i, j], 0, "dark pixel", E.q("1e-6"))


HARNESSES = [
    H("dark", dark, quick=[(2, 2, 3, ((0, 1),), "f8"),
                           (2, 2, 1, ((1, 0), (1, 1)), "u1"),
                           (1, 2, 1, ((0, 0),), "f8"),
                           (2, 1, 10, ((1, 0),), "u1")],
      bounds="images of two or four pixels of any value, some of them zero"),
    H("uniform", uniform, quick=[
        (4, 4, "f8", {"pad": 0}), (3, 3, "f8", {"pad": 0}),
        (3, 4, "f8", {"pad": 1, "sigma": 1}),
        (2, 5, "u1", {"pad": 1, "sigma": 3}),
        (1, 3, "f8", {"pad": 0, "sigma": 2}),
        (3, 2, "f8", {"pad": 1, "sigma": 2, "sign": -1}),
        (4, 2, "f8", {"pad": 1, "sigma": 2, "mode": "edge"})],
      bounds="images up to 4 x 5 pixels, padded to at most 7, any value"),
    H("normal", normal, quick=[
        (4, 4, 2, 0, None, "f8", ((1, 2),)),
        (2, 2, 1, 1, None, "f8", ((0, 0), (1, 0))),
        (3, 3, 1, 0, None, "f8", ((0, 2), (1, 1))),
        (3, 4, 2, 1, None, "f8", ((0, 1),)),
        (4, 3, None, 1, "edge", "f8", ((3, 1), (0, 0))),
        (3, 5, 2, 1, "wrap", "f8", ((2, 4),)),
        (5, 4, 3, 0, None, "u1", ((2, 1),)),
        (4, 5, 2, 2, "symmetric", "f8", ((1, 4),)),
        (3, 3, 1, 2, "reflect", "f8", ((0, 2), (1, 1), (2, 2))),
        (3, 2, 1, 1, None, "f8", ((0, 1), (1, 1)), -1),
        (6, 3, 2, 1, None, "f8", ((4, 1), (0, 2))),
        (2, 6, 4, 1, None, "u2", ((0, 1), (1, 5))),
        (5, 5, 2, 0, None, "f8", ((2, 2), (0, 4))),
        (3, 4, None, 100, None, "f8", ((1, 1), (2, 3))),
        (13, 18, 3, 2, None, "f8", ((6, 7), (0, 17))),
        (1, 6, 1, 0, None, "f8", ((0, 0), (0, 3))),
        (3, 1, "0.75", 0, None, "f8", ((0, 0), (2, 0)))],
      thorough=[
        (6, 5, 2, 2, None, "f8", ((5, 4), (0, 0), (2, 1))),
        (7, 6, 3, 1, "edge", "f8", ((3, 3), (6, 0))),
        (4, 4, 1, 3, None, "f8", ((1, 2), (3, 3), (0, 0))),
        (8, 9, 2, 0, None, "f8", ((1, 2), (7, 8))),
        (3, 4, 2, 4, "wrap", "f8", ((1, 2), (0, 3))),
        (3, 4, 5, 4, "symmetric", "u1", ((2, 2), (0, 0), (1, 3)))],
      bounds="images up to 6 x 5 pixels (thorough 8 x 9), padded to at most 9 (12), and 13 x 18 and 203 x 204 pixels, one to three "
             "pixels of any value in [1, 100] or [-100, -1]; sigma from 0.75 to 10"),
]
