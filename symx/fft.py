"""Discrete Fourier transforms of small arrays by their definition, as models
of numpy.fft / scipy.fft(pack)."""
import math
import operator
from fractions import Fraction

import numpy as np

from . import terms as T
from .arr import SArr, obj, F8
from .terms import Unsupported

def _un(why):
    if T.CUR is not None:
        T.CUR.aborted = True
    raise Unsupported(why)


MAX = 12        # larger ones go through numpy, monomial by monomial


def root(k, n):
    """exp(-2 pi i k / n): exact multiples of 1/2, floats otherwise"""
    def f(v):
        h = round(2 * v)
        return Fraction(h, 2) if abs(2 * v - h) < 1e-12 else Fraction(v)
    t = 2 * math.pi * (k % n) / n
    return f(math.cos(t)), f(-math.sin(t))


def _mk(o):
    o = np.asarray(o, dtype=object)
    r = o.view(SArr)
    r.sd = F8
    return r


class CArr:
    """complex array as a pair of real arrays"""
    __array_ufunc__ = None
    _is_carr = True
    ndim = property(lambda s: s.re.ndim)
    shape = property(lambda s: s.re.shape)
    size = property(lambda s: s.re.size)
    real = property(lambda s: _mk(s.re.copy()))
    imag = property(lambda s: _mk(s.im.copy()))
    dtype = property(lambda s: np.dtype("c16"))

    def __init__(self, re, im):
        self.re = np.asarray(re, dtype=object)
        self.im = np.asarray(im, dtype=object)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        _un("complex arrays: " + n)

    def __mul__(self, o):
        p, q = _parts(o)
        if q is None:
            return CArr(self.re * p, self.im * p)
        return CArr(self.re * p - self.im * q, self.re * q + self.im * p)

    __rmul__ = __mul__

    def __truediv__(self, o):
        p, q = _parts(o)
        if q is not None:
            _un("complex division")
        one = np.frompyfunc(lambda a, b: a / b, 2, 1)
        return CArr(one(self.re, p), one(self.im, p))

    def __add__(self, o):
        p, q = _parts(o)
        return CArr(self.re + p, self.im + (0 if q is None else q))

    __radd__ = __add__

    def __neg__(self):
        return CArr(-self.re, -self.im)

    def __sub__(self, o):
        p, q = _parts(o)
        return CArr(self.re - p, self.im - (0 if q is None else q))

    def __rsub__(self, o):
        return -self + o

    def conj(self):
        return CArr(self.re, -self.im)

    conjugate = conj

    def copy(self):
        return CArr(self.re.copy(), self.im.copy())

    def __getitem__(self, i):
        r, m = self.re[i], self.im[i]
        if not isinstance(r, np.ndarray):
            _un("complex numbers")
        return CArr(r, m)

    def __len__(self):
        return len(self.re)

    @property
    def T(self):
        return CArr(self.re.T, self.im.T)


class BArr(CArr):
    """larger complex array, by the double precision coefficients of the
    monomials of its elements (transforms are linear)"""

    def __init__(self, t, shape):
        self.t = t
        self.sh = tuple(shape)

    ndim = property(lambda s: len(s.sh))
    shape = property(lambda s: s.sh)
    size = property(lambda s: int(np.prod(s.sh)))
    real = property(lambda s: s.out("real"))
    imag = property(lambda s: s.out("imag"))

    def out(self, part):
        c = [(m, getattr(v, part)) for m, v in self.t.items()]
        o = np.empty(self.sh, dtype=object)
        for i in np.ndindex(*self.sh):
            t = {m: Fraction(float(v[i])) for m, v in c if v[i] != 0}
            if not t:
                o[i] = Fraction(0)
            elif len(t) == 1 and () in t:
                o[i] = t[()]
            else:
                o[i] = T.Sym(T.Poly(t))
        return _mk(o)

    def each(self, f):
        t = {m: f(v) for m, v in self.t.items()}
        return BArr(t, next(iter(t.values())).shape)

    def __mul__(self, o):
        return self.each(lambda v: v * _numeric(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.each(lambda v: v / _numeric(o))

    def _no(self, *a):
        _un("arithmetic of larger complex arrays")

    __add__ = __radd__ = __sub__ = __rsub__ = _no

    def __neg__(self):
        return self.each(lambda v: -v)

    def conj(self):
        return self.each(np.conj)

    conjugate = conj

    def copy(self):
        return self.each(np.copy)

    def __getitem__(self, i):
        return self.each(lambda v: np.asarray(v[i]))

    def __len__(self):
        return self.sh[0]

    @property
    def T(self):
        return self.each(np.transpose)


def _numeric(o):
    if isinstance(o, CArr):
        _un("product of spectra")
    p, _ = _parts(o)
    try:
        r = np.array(p, dtype=float) if isinstance(p, np.ndarray) else \
            float(p)
    except (TypeError, ValueError):
        _un("symbolic window")
    return r


def _big(p):
    p = np.asarray(p, dtype=object)
    t = {(): np.zeros(p.shape, complex)}
    for i in np.ndindex(*p.shape):
        x = p[i]
        if isinstance(x, T.Sym):
            if x.d:
                _un("Fourier transform of quotients")
            for m, c in x.n.t.items():
                if m not in t:
                    if len(t) > 20:
                        _un("Fourier transform of many symbols")
                    t[m] = np.zeros(p.shape, complex)
                t[m][i] = float(c)
        else:
            t[()][i] = float(x)
    return BArr(t, p.shape)


def cufunc(name, method, inputs, kw):
    op = {"multiply": operator.mul, "divide": operator.truediv,
          "true_divide": operator.truediv, "add": operator.add,
          "subtract": operator.sub, "negative": operator.neg,
          "conjugate": lambda x: x.conj()}.get(name)
    if op is None or method != "__call__" or kw:
        _un("numpy.%s of complex arrays" % name)
    return op(*inputs)


def _ex(v):
    if isinstance(v, (bool, np.bool_)):
        return Fraction(int(v))
    if isinstance(v, (int, np.integer)):
        return Fraction(int(v))
    if isinstance(v, (float, np.floating)):
        return Fraction(float(v))
    if isinstance(v, (complex, np.complexfloating)):
        _un("complex numbers")
    return v


_EX = np.frompyfunc(_ex, 1, 1)


def _parts(o):
    if isinstance(o, BArr):
        _un("arithmetic of larger complex arrays")
    if isinstance(o, CArr):
        return o.re, o.im
    if isinstance(o, (list, tuple)):
        o = np.array(o, dtype=object)
    if isinstance(o, np.ndarray):
        if o.dtype.kind == "c":
            _un("concrete complex arrays")
        return np.asarray(_EX(obj(o) if isinstance(o, SArr) else o),
                          dtype=object), None
    if isinstance(o, (T.Sym, Fraction, int, float, np.number)):
        return _ex(o), None
    _un("complex arithmetic with %s" % type(o).__name__)


def _dft(re, im, ax, inv):
    n = re.shape[ax]
    if n > MAX:
        _un("Fourier transform of %d points" % n)
    re, im = np.moveaxis(re, ax, 0), np.moveaxis(im, ax, 0)
    R, I = [], []
    for k in range(n):
        r, s = 0 * re[0], 0 * im[0]
        for j in range(n):
            c, d = root(k * j, n)
            if inv:
                d = -d
            r = r + re[j] * c - im[j] * d
            s = s + im[j] * c + re[j] * d
        R.append(r / Fraction(n) if inv else r)
        I.append(s / Fraction(n) if inv else s)
    return (np.moveaxis(np.stack(R), 0, ax), np.moveaxis(np.stack(I), 0, ax))


def _fn(name, inv, axes):
    def f(x, *a, **k):
        ax = k.pop("axes", k.pop("axis", axes))
        k.pop("overwrite_x", None)
        k.pop("workers", None)
        if a or any(v is not None for v in k.values()):
            _un(name + " with options")
        if isinstance(x, BArr) or max(np.shape(x) or (0,)) > MAX:
            if isinstance(x, CArr) and not isinstance(x, BArr):
                _un(name + " of a larger array")
            if ax is None:
                ax = tuple(range(x.ndim))
            elif not isinstance(ax, (list, tuple)):
                ax = (ax,)
            f = np.fft.ifftn if inv else np.fft.fftn
            if not isinstance(x, BArr):
                x = _big(_parts(x)[0])
            return x.each(lambda v: f(v, axes=ax))
        p, q = _parts(x)
        if np.ndim(p) == 0:
            _un(name + " of a scalar")
        q = 0 * p if q is None else q
        if ax is None:
            ax = tuple(range(p.ndim))
        for i in (ax if isinstance(ax, (list, tuple)) else (ax,)):
            p, q = _dft(p, q, i, inv)
        return CArr(p, q)
    f.__name__ = name
    return f


def _shift(name, sign):
    def f(x, axes=None):
        if axes is None:
            axes = tuple(range(x.ndim))
        elif isinstance(axes, int):
            axes = (axes,)

        def r(o):
            for i in axes:
                n = o.shape[i]
                o = np.roll(o, n // 2 if sign > 0 else -(n // 2), i)
            return o
        if isinstance(x, BArr):
            return x.each(r)
        if isinstance(x, CArr):
            return CArr(r(x.re), r(x.im))
        if not isinstance(x, SArr):
            return r(np.asarray(x))
        y = r(np.asarray(obj(x), dtype=object)).view(SArr)
        y.sd = x.sd
        return y
    f.__name__ = name
    return f


FUNCS = {"fft": _fn("fft", False, -1), "ifft": _fn("ifft", True, -1),
         "fft2": _fn("fft2", False, (-2, -1)),
         "ifft2": _fn("ifft2", True, (-2, -1)),
         "fftn": _fn("fftn", False, None), "ifftn": _fn("ifftn", True, None),
         "fftshift": _shift("fftshift", 1),
         "ifftshift": _shift("ifftshift", -1)}
