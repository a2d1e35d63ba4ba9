"""Symbolic arrays of concrete shape: object ndarrays with a tracked dtype."""
import itertools
import math
import operator
from fractions import Fraction
from functools import reduce

import numpy as np

from . import terms as T
from .terms import Sym, SBool, Unsupported

_o = np.dtype(object)
F8 = np.dtype("f8")
I8 = np.dtype("i8")
B1 = np.dtype("?")


def is_num(x):
    return isinstance(x, (int, float, Fraction, Sym, SBool, np.number,
                          np.bool_, bool))


def is_symb(x):
    return isinstance(x, (Sym, SBool))


def elem(x):
    """python/numpy scalar -> element"""
    if isinstance(x, (bool, SBool, Sym, Fraction)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return Fraction(x) if math.isfinite(x) else x
    if isinstance(x, np.ndarray) and x.shape == ():
        return elem(x.item() if x.dtype == _o or not isinstance(x, SArr)
                    else x.item())
    return x


def kind_dtype(x):
    """dtype a scalar infers"""
    if isinstance(x, (bool, np.bool_, SBool)):
        return B1
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, Sym):
        return I8 if x.k == "i" else F8
    if isinstance(x, int):
        return I8
    if isinstance(x, (float, Fraction)):
        return F8
    return None


class _DTMeta(type):
    """shim scalar types: callable casts that also work as dtypes"""

    def __call__(cls, x=0, *a, **k):
        return cast_any(x, cls.dtype)

    def __instancecheck__(cls, x):
        if isinstance(x, cls._np):
            return True
        if isinstance(x, np.generic):
            return False
        if type(x) in (Sym, Fraction):
            w = getattr(x, "_w", None)
            if issubclass(np.float64, cls._np):
                return (isinstance(x, Fraction) or x.k == "f")
            if issubclass(np.int64, cls._np):
                return isinstance(x, Sym) and x.k == "i"
        return False

    def __subclasscheck__(cls, c):
        c = getattr(c, "_np", c)
        return issubclass(c, cls._np)

    def __eq__(cls, o):
        if o is cls:
            return True
        o = getattr(o, "_np", o)
        return o is cls._np

    def __hash__(cls):
        return hash(cls._np)


def dt(x):
    """dtype argument -> np.dtype or None"""
    if x is None:
        return None
    if isinstance(type(x), type) and isinstance(x, _DTMeta):
        return x.dtype
    n = getattr(x, "_shim_dtype", None)
    if n is not None:
        return n
    if isinstance(x, Tok):
        raise Unsupported("symbolic dtype")
    return np.dtype(x)


class Tok:
    pass


def make_scalar_type(npt):
    d = None
    try:
        d = np.dtype(npt)
        if npt in (np.floating, np.integer, np.number, np.generic,
                   np.inexact, np.signedinteger, np.unsignedinteger):
            d = None
    except TypeError:
        pass
    return _DTMeta(npt.__name__, (), {"_np": npt, "dtype": d})


# ---------------------------------------------------------------------- casts
def cast(x, d):
    """element cast"""
    x = elem(x)
    k = d.kind
    if k == "O":
        return x
    if k == "b":
        return T.tobool(x)
    if k in "iu":
        if isinstance(x, SBool):
            x = x.num()
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, float):
            return -(2 ** 63)
        t = T.trunc_(x)
        if isinstance(t, Sym):
            t = T._setk(t, "i")
        return wrap_int(t, d)
    if k == "f":
        if isinstance(x, SBool):
            x = x.num()
        if isinstance(x, float):
            return x
        if isinstance(x, Sym):
            x = T._setk(x, "f")
        elif isinstance(x, str):
            raise ValueError("could not convert string to float")
        elif x is None:
            raise TypeError("float() argument must be a real number")
        else:
            x = Fraction(x)
        if d.itemsize == 2:
            return half(x)
        if d.itemsize == 4 and T.CUR is not None and \
                T.CUR.state.get("round32"):
            return half(x, 4)
        return x
    if k == "c":
        return x
    raise Unsupported("cast to %s" % d)


def half(x, size=2):
    """float16 (float32) rounding: an arbitrary value within half an ulp"""
    if not isinstance(x, Sym):
        v = float((np.float16 if size == 2 else np.float32)(float(x)))
        return Fraction(v) if math.isfinite(v) else v
    a, s = T.fresh_atom("half%d" % size, x.key())
    if not a.axioms:
        e = T.abs_(x) * Fraction(1, 2048) + Fraction(1, 2 ** 24) if \
            size == 2 else T.abs_(x) * Fraction(1, 2 ** 24)
        a.axioms += [s <= x + e, s >= x - e]
    return s


def wrap_int(t, d):
    bits = d.itemsize * 8
    if bits >= 64:
        if d.kind == "u" and not isinstance(t, Sym) and t < 0:
            return t + (1 << bits)
        return t
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if d.kind == "i" \
        else (0, (1 << bits) - 1)
    m = 1 << bits
    if not isinstance(t, Sym):
        return (int(t) - lo) % m + lo
    if not t.d and t.n.nonneg() and len(t.n.t) == 0:
        return t
    inr = T.band(t >= lo, t <= hi)
    eng = T.CUR
    if eng is not None and eng.range_known(t, lo, hi):
        return t
    q = T.floor_((t - lo) / m)
    return T._setk(T.ite(inr, t, t - m * T.lift(q)), "i")


def cast_any(x, d):
    if isinstance(x, str):
        if d.kind == "f":
            return float_of_str(x)
    if isinstance(x, (list, tuple)):
        return A(x).astype(d)
    if isinstance(x, SArr):
        return x.astype(d)
    if getattr(x, "_is_larr", False):
        return x.astype(d)
    if isinstance(x, np.ndarray):
        return A(x).astype(d)
    if getattr(x, "_is_dataset", False):
        return A(x.__array__()).astype(d)
    return cast(x, d)


def float_of_str(x):
    f = T.TOKENS.value(x) if T.TOKENS is not None else None
    if f is not None:
        return f
    return Fraction(float(x))


# --------------------------------------------------------------------- arrays
def _infer(x):
    """collect dtypes in nested data"""
    if isinstance(x, SArr):
        return [x.sd]
    if isinstance(x, np.ndarray):
        if x.dtype == _o:
            return [d for e in x.flat for d in _infer(e)] or [F8]
        return [x.dtype]
    if isinstance(x, (list, tuple)):
        return [d for e in x for d in _infer(e)]
    k = kind_dtype(x)
    return [k if k is not None else _o]


def _plain(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        if x.dtype == _o:
            return x
        out = np.empty(x.shape, object)
        for i, v in enumerate(x.flat):
            out.flat[i] = elem(v)
        return out
    return x


def _deep(x):
    if isinstance(x, np.ndarray):
        return _plain(x)
    if isinstance(x, (list, tuple)):
        return [_deep(e) for e in x]
    return elem(x)


def has_larr(x):
    if getattr(x, "_is_larr", False):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_larr(e) for e in x)
    return False


def A(x, dtype=None, copy=True):
    """anything array-like -> SArr"""
    if getattr(x, "_is_larr", False):
        return x if dtype is None else x.astype(dtype)
    if getattr(x, "_is_dataset", False):
        x = x.__array__()
    d = dt(dtype)
    if isinstance(x, SArr):
        if d is not None and d != x.sd:
            return x.astype(d)
        return x
    if isinstance(x, np.ndarray) and x.dtype.kind in "SU":
        return x
    if isinstance(x, (map, zip, range)) or hasattr(x, "__next__"):
        if not isinstance(x, range):
            r = np.empty((), object)
            r[()] = x
            return r
        x = list(x)
    if isinstance(x, (set, dict)) or x is None or isinstance(x, str):
        if isinstance(x, str) or x is None:
            return np.asarray(x)
        raise Unsupported("array of %s" % type(x).__name__)
    if not isinstance(x, np.ndarray) and hasattr(x, "__array__") and \
            not is_num(x) and not isinstance(x, (list, tuple)):
        x = x.__array__()
        if isinstance(x, SArr):
            return x if d is None else x.astype(d)
    kinds = _infer(x)
    if any(k == _o for k in kinds):
        if isinstance(x, (list, tuple)) and any(
                isinstance(e, str) for e in _flat(x)):
            return np.asarray(x)
        raise Unsupported("array of objects")
    src = reduce(np.promote_types, kinds) if kinds else F8
    r = _deep(x)
    if not isinstance(r, np.ndarray):
        r = np.array(r, dtype=object)
    for e in r.flat:
        if isinstance(e, (list, tuple, np.ndarray)):
            if isinstance(e, np.ndarray) and e.shape == ():
                continue
            raise ValueError("setting an array element with a sequence. The "
                             "requested array has an inhomogeneous shape")
    out = r.view(SArr) if copy is False else r.copy().view(SArr)
    out.sd = src
    if src.kind == "f":
        for i, e in enumerate(out.flat):
            if isinstance(e, (int, bool, SBool)):
                _setflat(out, i, cast(e, F8))
            elif isinstance(e, Sym) and e.k == "i":
                _setflat(out, i, T._setk(e, "f"))
    elif src.kind in "iu":
        for i, e in enumerate(out.flat):
            if isinstance(e, (bool, SBool)):
                _setflat(out, i, cast(e, src))
    if d is not None and d != src:
        out = out.astype(d)
    return out


def _flat(x):
    for e in x:
        if isinstance(e, (list, tuple)):
            yield from _flat(e)
        else:
            yield e


def _setflat(a, i, v):
    a.view(np.ndarray).flat[i] = v


def mk(objarr, sd):
    """object ndarray -> SArr (or element when 0-d)"""
    if not isinstance(objarr, np.ndarray):
        return objarr
    if objarr.shape == ():
        return objarr.item() if objarr.dtype == _o else elem(objarr.item())
    r = objarr.view(SArr)
    r.sd = sd
    return r


def obj(x):
    """SArr/array/list -> plain object ndarray"""
    x = A(x)
    return x.view(np.ndarray)


class SArr(np.ndarray):
    sd = F8

    def __array_finalize__(self, o):
        if o is not None:
            self.sd = getattr(o, "sd", F8)

    @property
    def dtype(self):
        return self.sd

    @property
    def real(self):
        return self

    @property
    def itemsize(self):
        return self.sd.itemsize

    @property
    def nbytes(self):
        return self.sd.itemsize * self.size

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_call(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return npfunc(func, args, kwargs)

    # -- indexing
    def __getitem__(self, idx):
        return getitem(self, idx)

    def __setitem__(self, idx, val):
        setitem(self, idx, val)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield getitem(self, i)

    def __contains__(self, x):
        if isinstance(x, np.ndarray):
            return bool(T.bor(*[e for e in obj(self == x).flat]))
        return bool(T.bor(*[_eq(e, x) for e in obj(self).flat]))

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).flat[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one "
                         "element is ambiguous. Use a.any() or a.all()")

    def __int__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted")
        return int(self.view(np.ndarray).flat[0])

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted")
        return float(self.view(np.ndarray).flat[0])

    def __index__(self):
        if self.size != 1:
            raise TypeError("only integer scalar arrays can be converted to "
                            "a scalar index")
        return operator.index(self.view(np.ndarray).flat[0])

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __repr__(self):
        return "SArr(%s, %s)" % (self.view(np.ndarray).tolist(), self.sd)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # -- methods
    def astype(self, dtype, *a, copy=True, **k):
        d = dt(dtype)
        if d == self.sd:
            return self.copy() if copy else self
        src = self.view(np.ndarray)
        out = np.empty(self.shape, object)
        f = out.reshape(-1)
        for i, e in enumerate(src.flat):
            f[i] = cast(e, d)
        r = out.view(SArr)
        r.sd = d
        return r

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return npfunc(np.sum, (self,), dict(axis=axis, keepdims=keepdims))

    def prod(self, axis=None, **k):
        return npfunc(np.prod, (self,), dict(axis=axis))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return npfunc(np.mean, (self,), dict(axis=axis, keepdims=keepdims))

    def std(self, axis=None, **k):
        return npfunc(np.std, (self,), dict(axis=axis))

    def var(self, axis=None, **k):
        return npfunc(np.var, (self,), dict(axis=axis))

    def min(self, axis=None, **k):
        return npfunc(np.min, (self,), dict(axis=axis, **k))

    def max(self, axis=None, **k):
        return npfunc(np.max, (self,), dict(axis=axis, **k))

    def argmin(self, axis=None, **k):
        return npfunc(np.argmin, (self,), dict(axis=axis))

    def argmax(self, axis=None, **k):
        return npfunc(np.argmax, (self,), dict(axis=axis))

    def argsort(self, axis=-1, **k):
        return npfunc(np.argsort, (self,), dict(axis=axis))

    def sort(self, axis=-1, **k):
        self[...] = npfunc(np.sort, (self,), dict(axis=axis))

    def any(self, axis=None, **k):
        return npfunc(np.any, (self,), dict(axis=axis))

    def all(self, axis=None, **k):
        return npfunc(np.all, (self,), dict(axis=axis))

    def clip(self, min=None, max=None, **k):
        return npfunc(np.clip, (self, min, max), k)

    def round(self, decimals=0, **k):
        return npfunc(np.round, (self, decimals), {})

    def cumsum(self, axis=None, **k):
        return npfunc(np.cumsum, (self,), dict(axis=axis))

    def nonzero(self):
        return npfunc(np.nonzero, (self,), {})

    def dot(self, b):
        return npfunc(np.dot, (self, b), {})

    def fill(self, v):
        self[...] = v

    def copy(self, order="C"):
        r = self.view(np.ndarray).copy().view(SArr)
        r.sd = self.sd
        return r

    def conj(self):
        return self

    def reshape(self, *shape, order="C", **k):
        if len(shape) == 1 and not isinstance(shape[0], (int, Sym)):
            shape = tuple(shape[0])
        shape = tuple(operator.index(s) for s in shape)
        r = self.view(np.ndarray).reshape(shape, order=order).view(SArr)
        r.sd = self.sd
        return r

    def tobytes(self, *a, **k):
        raise Unsupported("tobytes of symbolic data")

    def __matmul__(self, o):
        return npfunc(np.matmul, (self, o), {})

    def __rmatmul__(self, o):
        return npfunc(np.matmul, (o, self), {})


def _eq(a, b):
    try:
        return T.eqv(elem(a), elem(b))
    except Unsupported:
        return bool(a == b)


# ------------------------------------------------------------------- indexing
def _norm_int(i, n):
    """symbolic/concrete index -> value in [0,n) or IndexError (forks)"""
    if isinstance(i, (Sym,)):
        if i.k != "i":
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), "
                             "numpy.newaxis (`None`) and integer or boolean "
                             "arrays are valid indices")
        if T.bor(i < -n, i >= n):
            raise IndexError("index is out of bounds for axis with size %d"
                             % n)
        if i < 0:
            i = i + n
        return i
    i = operator.index(i)
    if i < -n or i >= n:
        raise IndexError("index %d is out of bounds for axis with size %d"
                         % (i, n))
    return i + n if i < 0 else i


def norm_slice(s, n):
    def f(v, step):
        if v is None or isinstance(v, int):
            return v
        if isinstance(v, np.integer):
            return int(v)
        if isinstance(v, np.ndarray):
            v = v.item()
        if isinstance(v, Sym):
            if v.k != "i":
                raise TypeError("slice indices must be integers or None or "
                                "have an __index__ method")
            w = T.ite(v < 0, T.max2(v + n, 0 if step > 0 else -1),
                      T.min2(v, n))
            if isinstance(w, Sym):
                w = T._setk(w, "i").concretize()
            return int(w)
        if isinstance(v, (Fraction, float)):
            raise TypeError("slice indices must be integers or None or have "
                            "an __index__ method")
        return operator.index(v)
    step = s.step
    if isinstance(step, Sym):
        step = step.concretize()
    st = 1 if step is None else operator.index(step)
    if st < 0 and (isinstance(s.start, Sym) or isinstance(s.stop, Sym)):
        raise Unsupported("symbolic reversed slice")
    return slice(f(s.start, st), f(s.stop, st), step)


def _prep_index(a, idx):
    """-> (index tuple usable on object arrays, None) or
          (None, list of components) when symbolic integers remain"""
    if not isinstance(idx, tuple):
        idx = (idx,)
    out = []
    # expand ellipsis
    nax = sum(0 if (c is None or c is Ellipsis) else
              (c.ndim if isinstance(c, np.ndarray) and _isbool(c) else 1)
              for c in idx)
    comps = []
    for c in idx:
        if c is Ellipsis:
            comps.extend([slice(None)] * (a.ndim - nax))
        else:
            comps.append(c)
    ax = 0
    symbolic = False
    for c in comps:
        if c is None:
            out.append(None)
            continue
        if isinstance(c, slice):
            if ax >= a.ndim:
                raise IndexError("too many indices for array")
            out.append(norm_slice(c, a.shape[ax]))
            ax += 1
            continue
        if isinstance(c, (list, tuple)):
            c = A(list(c)) if len(c) else np.zeros(0, np.intp)
        if isinstance(c, (bool, np.bool_, SBool)):
            out.append(bool(c))
            continue
        if isinstance(c, np.ndarray) and _isbool(c):
            if c.ndim == 0:
                out.append(bool(c))
                continue
            if tuple(c.shape) != tuple(a.shape[ax:ax + c.ndim]):
                raise IndexError("boolean index did not match indexed array")
            m = np.empty(c.shape, bool)
            for i, e in enumerate(c.view(np.ndarray).flat):
                m.flat[i] = bool(e)
            out.append(m)
            ax += c.ndim
            continue
        if isinstance(c, np.ndarray) and c.ndim > 0:
            if isinstance(c, SArr):
                if c.sd.kind not in "iu" and c.size:
                    raise IndexError("arrays used as indices must be of "
                                     "integer (or boolean) type")
                flat = list(c.view(np.ndarray).flat)
                if any(isinstance(e, Sym) for e in flat):
                    symbolic = True
                    out.append(c)
                else:
                    out.append(np.array([int(e) for e in flat],
                                        np.intp).reshape(c.shape))
            else:
                out.append(c)
            ax += 1
            continue
        if isinstance(c, np.ndarray):
            c = c.item()
        if ax >= a.ndim:
            raise IndexError("too many indices for array: array is "
                             "%d-dimensional" % a.ndim)
        if isinstance(c, Fraction) or isinstance(c, float):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), "
                             "numpy.newaxis (`None`) and integer or boolean "
                             "arrays are valid indices")
        v = _norm_int(c, a.shape[ax])
        if isinstance(v, Sym):
            symbolic = True
        out.append(v)
        ax += 1
    while ax < a.ndim:
        out.append(slice(None))
        ax += 1
    return tuple(out), symbolic


def _isbool(c):
    return (c.sd if isinstance(c, SArr) else c.dtype).kind == "b"


def pick(vals, i):
    """element of the concrete list `vals` at symbolic position i"""
    r = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        r = T.ite(i == k, vals[k], r)
    return r


def _ites(c, x, y):
    """elementwise ite on arrays/elements"""
    if isinstance(x, np.ndarray):
        out = np.empty(x.shape, object)
        fx, fy = x.reshape(-1), y.reshape(-1)
        f = out.reshape(-1)
        for i in range(len(fx)):
            f[i] = T.ite(c, fx[i], fy[i])
        return out
    return T.ite(c, x, y)


def getitem(a, idx):
    if isinstance(idx, str):
        raise Unsupported("field access")
    ix, symbolic = _prep_index(a, idx)
    p = a.view(np.ndarray)
    if not symbolic:
        r = p[ix]
        if isinstance(r, np.ndarray) and r.dtype == _o and \
                not (r.shape == () and all(isinstance(c, (int, np.integer))
                                           for c in ix)):
            r = r.view(SArr)
            r.sd = a.sd
            return r
        return r
    # symbolic integer positions
    if all(not isinstance(c, np.ndarray) for c in ix):
        # plain integers: ite over one symbolic axis at a time
        for n, c in enumerate(ix):
            if isinstance(c, Sym):
                axn = sum(1 for q in ix[:n] if q is not None)
                size = a.shape[axn]
                parts = [getitem(a, ix[:n] + (k,) + ix[n + 1:])
                         for k in range(size)]
                r = parts[-1]
                if isinstance(r, np.ndarray):
                    r = r.view(np.ndarray)
                for k in range(size - 2, -1, -1):
                    pk = parts[k]
                    if isinstance(pk, np.ndarray):
                        pk = pk.view(np.ndarray)
                    r = _ites(c == k, pk, r)
                return mk(r, a.sd) if isinstance(r, np.ndarray) else r
    fancy = [c for c in ix if isinstance(c, np.ndarray) or
             isinstance(c, (int, Sym))]
    if any(isinstance(c, slice) and c != slice(None) for c in ix) or \
            any(c is None for c in ix):
        raise Unsupported("mixed symbolic indexing")
    nf = sum(1 for c in ix if not isinstance(c, slice))
    if any(isinstance(c, slice) for c in ix[:nf]):
        raise Unsupported("mixed symbolic indexing")
    bs = np.broadcast(*[c.view(np.ndarray) if isinstance(c, np.ndarray)
                        else np.array(c, object) for c in ix[:nf]])
    rest = a.shape[nf:]
    out = np.empty(bs.shape + rest, object)
    o2 = out.reshape((-1,) + rest)
    for n, tup in enumerate(bs):
        v = getitem(a, tuple(tup))
        o2[n] = v.view(np.ndarray) if isinstance(v, np.ndarray) else v
    return mk(out, a.sd)


def _castval(val, sd):
    if isinstance(val, np.ndarray) or isinstance(val, (list, tuple)):
        v = A(val)
        return v.astype(sd).view(np.ndarray) if v.sd != sd else \
            v.view(np.ndarray)
    return cast(val, sd)


def setitem(a, idx, val):
    if getattr(val, "_is_larr", False):
        raise Unsupported("store of a symbolic-shape array")
    p = a.view(np.ndarray)
    if not a.flags.writeable:
        raise ValueError("assignment destination is read-only")
    v = _castval(val, a.sd)
    if isinstance(idx, list):
        idx = A(idx) if idx else np.zeros(0, np.intp)
    # a single boolean mask with a scalar value: no fork
    if isinstance(idx, SArr) and _isbool(idx) and (
            not isinstance(v, np.ndarray) or v.shape == ()):
        if isinstance(v, np.ndarray):
            v = v.item()
        m = idx.view(np.ndarray)
        if tuple(m.shape) != tuple(a.shape[:m.ndim]):
            raise IndexError("boolean index did not match indexed array")
        for pos in np.ndindex(m.shape):
            c = m[pos]
            if not isinstance(c, SBool):
                if c:
                    p[pos] = v
            elif isinstance(p[pos], np.ndarray):
                sub = p[pos]
                for q in np.ndindex(sub.shape):
                    sub[q] = T.ite(c, v, sub[q])
            else:
                p[pos] = T.ite(c, v, p[pos])
        return
    ix, symbolic = _prep_index(a, idx)
    if not symbolic:
        p[ix] = v
        return
    nf = sum(1 for c in ix if not isinstance(c, slice))
    if any(isinstance(c, slice) for c in ix[:nf]) or any(
            isinstance(c, slice) and c != slice(None) for c in ix):
        # concretise
        ix = tuple(c.concretize() if isinstance(c, Sym) else
                   (_conc_arr(c) if isinstance(c, SArr) else c) for c in ix)
        p[ix] = v
        return
    bs = np.broadcast(*[c.view(np.ndarray) if isinstance(c, np.ndarray)
                        else np.array(c, object) for c in ix[:nf]])
    rest = a.shape[nf:]
    if isinstance(v, np.ndarray):
        vv = np.broadcast_to(v, bs.shape + rest).reshape((-1,) + rest)
    for n, tup in enumerate(bs):
        val_n = vv[n] if isinstance(v, np.ndarray) else v
        tup = [_norm_int(t, a.shape[k]) for k, t in enumerate(tup)]
        spans = [range(a.shape[k]) if isinstance(t, Sym) else [t]
                 for k, t in enumerate(tup)]
        for pos in itertools.product(*spans):
            c = T.band(*[t == q for t, q in zip(tup, pos)
                         if isinstance(t, Sym)])
            if rest:
                p[pos] = _ites(c, val_n if isinstance(val_n, np.ndarray)
                               else np.full(rest, val_n, object), p[pos])
            else:
                p[pos] = T.ite(c, val_n, p[pos])


def _conc_arr(c):
    return np.array([operator.index(e) for e in c.view(np.ndarray).flat],
                    np.intp).reshape(c.shape)


# --------------------------------------------------------------------- ufuncs
def _div(a, b):
    if not is_symb(a) and not is_symb(b):
        if _nf(a) or _nf(b):
            return float(np.divide(float(a), float(b)))
        if b == 0:
            with np.errstate(all="ignore"):
                return float(np.divide(float(a), float(b)))
        return Fraction(a) / Fraction(b)
    if _nf(a) or _nf(b):
        if _nf(b) and not math.isnan(b):
            return Fraction(0)
        return float("nan")
    try:
        if not is_symb(b):
            if b == 0:
                return float("nan")
        return T._setk(T.lift(a) / T.lift(b), "f")
    except T.ZeroDivision:
        return float("nan")


def _nf(x):
    return isinstance(x, float) and not math.isfinite(x)


def _pow(a, b):
    if isinstance(b, Fraction) and b.denominator == 1:
        b = int(b)
        if not is_symb(a):
            a = Fraction(a)
        else:
            a = T._setk(T.lift(a), "f")
    if not is_symb(a) and not is_symb(b):
        if isinstance(b, int):
            if b < 0 and a == 0:
                return float("inf")
            return a ** b if b >= 0 or not isinstance(a, int) else \
                Fraction(a) ** b
        if isinstance(b, Fraction) and b.denominator == 2:
            return T.sqrt_(a) ** b.numerator
        return Fraction(float(a) ** float(b))
    if isinstance(a, SBool):
        a = a.num()
    try:
        return a ** b
    except T.ZeroDivision:
        return float("nan")


def _floordiv(a, b):
    if not is_symb(a) and not is_symb(b):
        if b == 0:
            return 0 if isinstance(a, int) and isinstance(b, int) \
                else float("nan")
        r = a // b
        return r if isinstance(a, int) and isinstance(b, int) else Fraction(r)
    if not is_symb(b) and b == 0:
        return float("nan")
    return T.lift(a) // b


def _mod(a, b):
    if not is_symb(a) and not is_symb(b):
        if b == 0:
            return float("nan")
        return a % b
    return T.lift(a) % b


def _arith(op):
    def f(a, b):
        if _nf(a) or _nf(b):
            if is_symb(a) or is_symb(b):
                o = a if _nf(a) else b
                if op is operator.mul or math.isnan(o):
                    return float("nan")
                return o if (op is operator.add or o is a) else -o
            return op(float(a), float(b))
        if isinstance(a, bool) and isinstance(b, bool):
            if op is operator.add:
                return a or b
            if op is operator.mul:
                return a and b
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            if op is operator.add:
                return T.bor(a, b)
            if op is operator.mul:
                return T.band(a, b)
        return op(a, b)
    return f


def _cmpf(op):
    def f(a, b):
        if _nf(a) or _nf(b):
            if is_symb(a) or is_symb(b):
                o, first = (a, True) if _nf(a) else (b, False)
                if math.isnan(o):
                    return op is operator.ne
                return bool(op(o, 0) if first else op(0, o))
            return bool(op(float(a), float(b)))
        if isinstance(a, SBool):
            a = a.num() if op not in (operator.eq, operator.ne) else a
        if isinstance(b, SBool) and op not in (operator.eq, operator.ne):
            b = b.num()
        if op is operator.eq:
            return _eq(a, b)
        if op is operator.ne:
            return T.bnot(_eq(a, b))
        return op(T.lift(a), T.lift(b)) if is_symb(a) or is_symb(b) \
            else op(a, b)
    return f


def _minf(a, b):
    if _nf(a) or _nf(b):
        o, x = (a, b) if _nf(a) else (b, a)
        return o if math.isnan(o) or o < 0 else x
    return T.min2(a, b)


def _maxf(a, b):
    if _nf(a) or _nf(b):
        o, x = (a, b) if _nf(a) else (b, a)
        return o if math.isnan(o) or o > 0 else x
    return T.max2(a, b)


def _un(f):
    def g(x):
        if _nf(x):
            return x
        return f(x)
    return g


def _unsup(name):
    def f(*a):
        raise Unsupported("ufunc " + name)
    return f


def _keep_float(f):
    def g(x):
        if _nf(x):
            return x
        r = f(x)
        if isinstance(x, (Fraction, float)) or (isinstance(x, Sym)
                                                and x.k == "f"):
            return T._setk(r, "f") if isinstance(r, Sym) else Fraction(r)
        return r
    return g


def _isfin(x):
    return not _nf(x)


def _hyp(a, b):
    return T.sqrt_(T.lift(a) * a + T.lift(b) * b)


def _deg2rad(x):
    return T.lift(x) * T.pi_() / 180


def _rad2deg(x):
    return T.lift(x) * 180 / T.pi_()


def _opq(name):
    def f(*a):
        return T.uf("np_" + name, a)
    return f


_UFT = {
    "add": _arith(operator.add), "subtract": _arith(operator.sub),
    "multiply": _arith(operator.mul), "divide": _div, "true_divide": _div,
    "floor_divide": _floordiv, "remainder": _mod, "mod": _mod,
    "power": _pow, "float_power": _pow,
    "negative": _un(operator.neg), "positive": _un(lambda x: x),
    "absolute": _un(T.abs_), "fabs": _un(T.abs_),
    "sign": _un(T.sign_), "sqrt": _un(T.sqrt_),
    "square": _un(lambda x: (T.lift(x) ** 2) if is_symb(x) else x * x),
    "reciprocal": lambda x: _div(Fraction(1), x),
    "floor": _keep_float(T.floor_), "ceil": _keep_float(T.ceil_),
    "trunc": _keep_float(T.trunc_), "rint": _keep_float(T.rint_),
    "sin": _un(T.sin_), "cos": _un(T.cos_), "tan": _un(T.tan_),
    "arctan": _un(T.atan_), "exp": _un(T.exp_), "hypot": _hyp,
    "log": _opq("log"), "log10": _opq("log10"), "log2": _opq("log2"),
    "arctan2": _opq("arctan2"), "arcsin": _opq("arcsin"),
    "arccos": _opq("arccos"), "cbrt": _opq("cbrt"), "tanh": _opq("tanh"),
    "deg2rad": _deg2rad, "radians": _deg2rad,
    "rad2deg": _rad2deg, "degrees": _rad2deg,
    "minimum": _minf, "maximum": _maxf, "fmin": _minf, "fmax": _maxf,
    "less": _cmpf(operator.lt), "less_equal": _cmpf(operator.le),
    "greater": _cmpf(operator.gt), "greater_equal": _cmpf(operator.ge),
    "equal": _cmpf(operator.eq), "not_equal": _cmpf(operator.ne),
    "logical_and": lambda a, b: T.band(T.tobool(a), T.tobool(b)),
    "logical_or": lambda a, b: T.bor(T.tobool(a), T.tobool(b)),
    "logical_not": lambda a: T.bnot(T.tobool(a)),
    "logical_xor": lambda a, b: T.bor(
        T.band(T.tobool(a), T.bnot(T.tobool(b))),
        T.band(T.bnot(T.tobool(a)), T.tobool(b))),
    "bitwise_and": lambda a, b: T.band(a, b) if _bb(a, b) else _bit(
        "and", a, b),
    "bitwise_or": lambda a, b: T.bor(a, b) if _bb(a, b) else _bit(
        "or", a, b),
    "bitwise_xor": lambda a, b: T.bnot(_eq(a, b)) if _bb(a, b) else _bit(
        "xor", a, b),
    "invert": lambda a: T.bnot(a) if isinstance(a, (bool, SBool))
    else -a - 1,
    "isfinite": _isfin, "isnan": lambda x: isinstance(x, float) and x != x,
    "isinf": lambda x: isinstance(x, float) and abs(x) == float("inf"),
    "signbit": lambda x: T.lift(x) < 0, "conjugate": lambda x: x,
    "copysign": lambda a, b: T.ite(T.lift(b) < 0, -T.abs_(a), T.abs_(a)),
}


def _bb(a, b):
    return isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool))


def _bit(n, a, b):
    if is_symb(a) or is_symb(b):
        raise Unsupported("bit operation on symbolic integers")
    return {"and": a & b, "or": a | b, "xor": a ^ b}[n]


def _weak(x):
    """stand-in argument for dtype resolution"""
    if isinstance(x, SArr):
        return np.empty(0, x.sd if x.sd != _o else F8)
    if isinstance(x, np.ndarray):
        return np.empty(0, x.dtype)
    if isinstance(x, (bool, SBool)):
        return True
    if isinstance(x, np.generic):
        return np.empty(0, x.dtype)
    if isinstance(x, Sym):
        return 1 if x.k == "i" else 1.0
    if isinstance(x, int):
        return 1
    return 1.0


def result_dtype(name, ufunc, ins):
    if name in ("less", "less_equal", "greater", "greater_equal", "equal",
                "not_equal", "logical_and", "logical_or", "logical_not",
                "logical_xor", "isfinite", "isnan", "isinf", "signbit"):
        return B1
    try:
        with np.errstate(all="ignore"):
            return ufunc(*[_weak(x) for x in ins]).dtype
    except TypeError:
        return F8


def ufunc_call(ufunc, method, inputs, kw):
    name = ufunc.__name__
    if any(has_larr(x) for x in inputs):
        from . import larr
        return larr.ufunc(ufunc, method, inputs, kw)
    if any(getattr(x, "_is_carr", False) for x in inputs):
        from .fft import cufunc
        return cufunc(name, method, inputs, kw)
    ins = []
    for x in inputs:
        if isinstance(x, (list, tuple)):
            x = A(x)
        elif isinstance(x, np.ndarray) and not isinstance(x, SArr):
            x = A(x)
        elif getattr(x, "_is_dataset", False):
            x = A(x)
        elif x is None or isinstance(x, (str, dict)):
            if name in ("equal", "not_equal"):
                return name == "not_equal"
            raise TypeError("unsupported operand type(s) for %s" % name)
        ins.append(x)
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    dtype = dt(kw.pop("dtype", None))
    if isinstance(out, tuple):
        out = out[0]
    if name == "matmul":
        return npfunc(np.matmul, tuple(ins), {})
    if name in ("divmod", "modf", "frexp"):
        if name == "divmod":
            return (ufunc_call(np.floor_divide, "__call__", ins, {}),
                    ufunc_call(np.remainder, "__call__", ins, {}))
        raise Unsupported("ufunc " + name)
    f = _UFT.get(name)
    if f is None:
        raise Unsupported("ufunc " + name)
    if method == "__call__":
        if not any(isinstance(x, np.ndarray) for x in ins) and out is None \
                and where is True:
            r = f(*[elem(x) for x in ins])
            if name == "sqrt" and isinstance(r, int):
                r = Fraction(r)
            return r
        rd = dtype or result_dtype(name, ufunc, ins)
        os = [x.view(np.ndarray) if isinstance(x, np.ndarray) else
              np.array(elem(x), object) for x in ins]
        os = [o if o.dtype == _o else o.astype(object) for o in os]
        extra = []
        if where is not True:
            extra = [obj(where) if isinstance(where, np.ndarray)
                     else np.array(where, object)]
        b = np.broadcast(*(os + extra))
        shape = b.shape
        bos = [np.broadcast_to(o, shape).reshape(-1) for o in os]
        n = int(np.prod(shape)) if shape else 1
        res = np.empty(n, object)
        if where is not True:
            bw = np.broadcast_to(extra[0], shape).reshape(-1)
            base = np.broadcast_to(obj(out), shape).reshape(-1) \
                if out is not None else None
        isf = rd.kind == "f"
        for i in range(n):
            if where is not True:
                c = bw[i]
                if not (isinstance(c, SBool) or c):
                    res[i] = base[i] if base is not None else \
                        _garbage()
                    continue
                if isinstance(c, SBool):
                    if name in ("divide", "true_divide"):
                        # the masked-out lane must not constrain the path
                        if bool(c):
                            v = f(*[o[i] for o in bos])
                        else:
                            v = base[i] if base is not None else _garbage()
                    else:
                        v = f(*[o[i] for o in bos])
                        v = T.ite(c, v, base[i] if base is not None
                                  else _garbage())
                    res[i] = cast(v, rd) if isf else v
                    continue
            v = f(*[o[i] for o in bos])
            if isf and isinstance(v, (int, bool)):
                v = Fraction(v)
            elif isf and isinstance(v, Sym) and v.k == "i":
                v = T._setk(v, "f")
            elif isf and isinstance(v, SBool):
                v = v.num()
            elif rd.kind in "iu" and isinstance(v, (bool, SBool)):
                v = cast(v, I8)
            elif rd.kind in "iu" and rd.itemsize < 4 and name in (
                    "add", "subtract", "multiply", "negative"):
                v = wrap_int(v, rd)
            res[i] = v
        res = res.reshape(shape)
        if out is not None:
            out[...] = mk(res, rd) if res.shape else res.item()
            return out
        return mk(res, rd)
    if method == "reduce":
        a = ins[0]
        axis = kw.get("axis", 0)
        keep = kw.get("keepdims", False)
        return reduce_(name, f, a, axis, keep, kw.get("initial", None))
    if method == "accumulate":
        a = A(ins[0])
        axis = kw.get("axis", 0)
        p = np.moveaxis(a.view(np.ndarray), axis, 0).copy()
        for i in range(1, p.shape[0]):
            p[i] = _ew(f, p[i - 1], p[i])
        return mk(np.moveaxis(p, 0, axis), a.sd)
    if method == "outer":
        x, y = A(ins[0]), A(ins[1])
        return ufunc_call(ufunc, "__call__",
                          (x.reshape(x.shape + (1,) * y.ndim), y), {})
    if method == "at":
        a, idx, v = ins[0], inputs[1], ins[2] if len(ins) > 2 else None
        ia = A(idx).view(np.ndarray).reshape(-1)
        vv = np.broadcast_to(obj(v) if isinstance(v, np.ndarray)
                             else np.array(v, object), ia.shape)
        for k, i in enumerate(ia):
            setitem(a, i, f(getitem(a, i), vv[k]))
        return None
    raise Unsupported("ufunc method " + method)


def _garbage():
    e = T.CUR
    n = e.tick() if e is not None else 0
    return T.real("uninit!%d" % n)


def _ew(f, x, y):
    out = np.empty(np.shape(x), object)
    fx, fy = np.asarray(x, object).reshape(-1), np.asarray(
        y, object).reshape(-1)
    o = out.reshape(-1)
    for i in range(len(fx)):
        o[i] = f(fx[i], fy[i])
    return out if out.shape else out.item()


def reduce_(name, f, a, axis=None, keepdims=False, initial=None):
    a = A(a)
    if not isinstance(a, np.ndarray):
        return a
    p = a.view(np.ndarray)
    if keepdims is np._NoValue:
        keepdims = False
    sd = a.sd
    ident = {"add": 0, "multiply": 1, "logical_and": True,
             "logical_or": False}.get(name)
    if sd.kind == "f" and ident is not None and not isinstance(ident, bool):
        ident = Fraction(ident)
    if sd.kind == "b" and name in ("add", "multiply"):
        p = np.array([cast(e, I8) for e in p.flat],
                     object).reshape(p.shape)
        sd = I8
    if sd.kind in "iu" and sd.itemsize < 8 and name in ("add", "multiply"):
        sd = I8
    if name in ("logical_and", "logical_or"):
        sd = B1
    if axis is None:
        axes = tuple(range(p.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = tuple(operator.index(x) % p.ndim for x in axis)
    else:
        axis = operator.index(axis)
        if axis < -p.ndim or axis >= p.ndim:
            raise np.exceptions.AxisError(axis, p.ndim)
        axes = (axis % p.ndim,)
    keep = [i for i in range(p.ndim) if i not in axes]
    q = np.transpose(p, keep + list(axes))
    ks = tuple(p.shape[i] for i in keep)
    q = q.reshape(ks + (-1,)) if q.size else np.empty(
        ks + (int(np.prod([p.shape[i] for i in axes])),), object)
    out = np.empty(ks, object)
    for pos in np.ndindex(ks):
        vals = list(q[pos])
        if initial is not None and initial is not np._NoValue:
            vals = [initial] + vals
        if not vals:
            if ident is None:
                raise ValueError("zero-size array to reduction operation %s "
                                 "which has no identity" % name)
            out[pos] = ident
            continue
        if name in ("logical_and", "logical_or"):
            vals = [T.tobool(v) for v in vals]
            out[pos] = T.band(*vals) if name == "logical_and" \
                else T.bor(*vals)
            continue
        r = vals[0]
        for v in vals[1:]:
            r = f(r, v)
        out[pos] = r
    if keepdims:
        out = out.reshape(tuple(1 if i in axes else p.shape[i]
                                for i in range(p.ndim)))
    return mk(out, sd)


def _scalar_ufunc(ufunc, method, *inputs, **kw):
    return ufunc_call(ufunc, method, inputs, kw)


T._UF = _scalar_ufunc


def npfunc(func, args, kwargs):
    from . import npsym
    return npsym.dispatch(func, args, kwargs)
