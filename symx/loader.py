"""Loads the current sources of /repo for symbolic execution.

The module text is compiled unchanged; only the names it imports (numpy,
scipy, h5py, ...) and a few builtins are bound to symbolic models."""
import builtins as _b
import importlib
import math
import operator
import os
import sys
import types
from fractions import Fraction

import numpy as np

from . import terms as T
from . import arr, npsym
from .arr import A, SArr, elem, is_num
from .npsym import Shim, _UnsupportedObj, NUMPY
from .terms import Sym, SBool, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")


# ------------------------------------------------------------ builtin shims
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, Sym) and x.k == "i") or \
            isinstance(x, np.integer) and False

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, SBool):
            return x.num()
        if isinstance(x, Sym):
            t = T.trunc_(x)
            return T._setk(t, "i") if isinstance(t, Sym) else int(t)
        if isinstance(x, SArr):
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to "
                                "Python scalars")
            return cls(elem(x.view(np.ndarray).flat[0]))
        if isinstance(x, str) and T.TOKENS is not None:
            v = T.TOKENS.value(x)
            if v is not None:
                if isinstance(v, Sym) and v.k == "i" or isinstance(v, int):
                    return v
                raise ValueError("invalid literal for int() with base 10")
        return int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class SInt(metaclass=_IntMeta):
    _shim_dtype = np.dtype(int)
    _np = int
    __name__ = "int"


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Fraction)) or (
            isinstance(x, Sym) and x.k == "f")

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, x=0):
        if isinstance(x, SBool):
            return x.num()
        if isinstance(x, Sym):
            return T._setk(x, "f")
        if isinstance(x, SArr):
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to "
                                "Python scalars")
            return cls(elem(x.view(np.ndarray).flat[0]))
        if isinstance(x, str):
            v = T.TOKENS.value(x) if T.TOKENS is not None else None
            if v is not None:
                return T._setk(v, "f") if isinstance(v, Sym) else v
            v = float(x)
            return Fraction(v) if math.isfinite(v) else v
        if isinstance(x, Fraction):
            return x
        return float(x)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class SFloat(metaclass=_FloatMeta):
    _shim_dtype = np.dtype(float)
    _np = float
    __name__ = "float"
    fromhex = float.fromhex


def _minmax(native, f2):
    def f(*a, **k):
        seq = list(a[0]) if len(a) == 1 else list(a)
        if k.get("key") is None and "default" not in k and seq and all(
                is_num(x) for x in seq) and any(
                isinstance(x, Sym) for x in seq):
            r = seq[0]
            for x in seq[1:]:
                r = f2(r, x)
            return r
        if "key" in k and k["key"] is None:
            k.pop("key")
        return native(seq, **k) if seq or "default" in k else native(seq)
    f.__name__ = native.__name__
    return f


def _len(x):
    if getattr(x, "_is_larr", False):
        return x.shape[0]
    return len(x)


class LazyRange:
    """range with a symbolic end: membership without enumerating it"""

    def __init__(self, a):
        self.a, self.r = a, None
        self.lo, self.hi = (0, a[0]) if len(a) == 1 else a[:2]

    def _all(self):
        if self.r is None:
            self.r = _range_list(*self.a)
        return self.r

    def __contains__(self, x):
        if isinstance(x, (np.ndarray, SArr)) and x.ndim == 0:
            x = x.item()
        if not isinstance(x, (int, np.integer, Fraction, Sym)):
            return x in self._all()
        x = T.lift(x)
        return bool(T.band(x >= self.lo, x < self.hi,
                           T.eqv(T.floor_(x), x)))

    def __iter__(self):
        return iter(self._all())

    def __len__(self):
        return len(self._all())

    def __getitem__(self, k):
        return self._all()[k]

    def __reversed__(self):
        return reversed(self._all())

    def __eq__(self, o):
        return list(self._all()) == list(o)

    __hash__ = None

    def index(self, x):
        return self._all().index(x)

    def count(self, x):
        return self._all().count(x)

    @property
    def start(self):
        return self.lo

    @property
    def stop(self):
        return self.hi

    step = 1


def _range(*a):
    if any(isinstance(x, Sym) for x in a) and (len(a) < 3 or (
            not isinstance(a[2], Sym) and a[2] == 1)) and all(
            isinstance(x, (int, np.integer)) or isinstance(x, Sym) and
            x.k == "i" for x in a):
        return LazyRange(a)
    return _range_list(*a)


def _range_list(*a):
    a = [x.item() if isinstance(x, (SArr, np.ndarray)) and x.ndim == 0 else x
         for x in a]
    if not any(isinstance(x, Sym) for x in a):
        return range(*a)
    for x in a:
        if isinstance(x, (float, Fraction)) or isinstance(x, Sym) and \
                x.k != "i":
            raise TypeError("'float' object cannot be interpreted as an "
                            "integer")
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else \
        (a[0], a[1], a[2] if len(a) > 2 else 1)
    if isinstance(st, Sym) and bool(st == 0) or not isinstance(st, Sym) and \
            st == 0:
        raise ValueError("range() arg 3 must not be zero")
    if not isinstance(lo, Sym) and not isinstance(st, Sym):
        return range(lo, hi, st)
    if not bool(T.lift(st) > 0):
        return range(*a)
    if not isinstance(st, Sym) and st == 1:
        n = T.lift(hi) - lo
        n = T._setk(n, "i").concretize() if isinstance(n, Sym) and \
            n.const() is None else int(T.lift(n).const())
        return [lo + k for k in range(max(0, n))]
    out, cur = [], T.lift(lo)
    while bool(cur < hi):
        out.append(cur)
        cur = cur + st
    return out


def _sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def _abs(x):
    return abs(x)


def _round(x, nd=None):
    if isinstance(x, (Sym, Fraction)):
        return T.round_(x, nd)
    return round(x) if nd is None else round(x, nd)


def _pow(a, b, *m):
    if m:
        return pow(a, b, *m)
    return a ** b


def _print(*a, **k):
    return None


def _isinstance(x, t):
    return isinstance(x, t)


def _sorted(it, key=None, reverse=False):
    return sorted(it, key=key, reverse=reverse)


def _any(it):
    vs = list(it)
    if vs and all(isinstance(v, (bool, SBool, np.bool_)) for v in vs):
        return T.bor(*vs)
    return any(vs)


def _all(it):
    vs = list(it)
    if vs and all(isinstance(v, (bool, SBool, np.bool_)) for v in vs):
        return T.band(*vs)
    return all(vs)


def _type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, Sym):
            return SInt if x.k == "i" else SFloat
        if isinstance(x, Fraction) or type(x) is float:
            return SFloat
        if type(x) is int:
            return SInt
        if isinstance(x, np.ndarray) or getattr(x, "_is_larr", False):
            return npsym.NdArray
        return type(x)
    return type(*a)


BUILTINS = dict(_b.__dict__)
BUILTINS.update({
    "int": SInt, "float": SFloat, "min": _minmax(min, T.min2),
    "max": _minmax(max, T.max2), "len": _len, "sum": _sum, "round": _round,
    "print": _print, "pow": _pow,
    "range": _range, "any": _any, "all": _all,
})


# --------------------------------------------------------------- math module
def _m1(f):
    def g(x):
        if isinstance(x, SArr):
            x = elem(x.item())
        r = f(elem(x))
        return r
    return g


def _hypot(*a):
    return T.sqrt_(sum((T.lift(x) * x for x in a), 0))


def _dist(p, q):
    return T.sqrt_(sum(((T.lift(x) - y) * (T.lift(x) - y)
                        for x, y in zip(p, q)), 0))


def _msqrt(x):
    x = elem(x)
    if isinstance(x, Sym):
        if bool(x < 0):
            raise ValueError("math domain error")
        return T.sqrt_(x)
    if x < 0:
        raise ValueError("math domain error")
    return T.sqrt_(x)


def _atan2(y, x):
    return npsym.ufunc_call(np.arctan2, "__call__", (y, x), {})


_MATH = {
    "pi": None, "sqrt": _msqrt, "hypot": _hypot, "dist": _dist,
    "floor": _m1(T.floor_), "ceil": _m1(T.ceil_), "trunc": _m1(T.trunc_),
    "sin": _m1(T.sin_), "cos": _m1(T.cos_), "tan": _m1(T.tan_),
    "atan": _m1(T.atan_), "exp": _m1(T.exp_), "fabs": _m1(T.abs_),
    "atan2": _atan2, "pow": lambda a, b: T.lift(a) ** b,
    "radians": lambda x: T.lift(x) * T.pi_() / 180,
    "degrees": lambda x: T.lift(x) * 180 / T.pi_(),
    "isnan": lambda x: isinstance(x, float) and math.isnan(x),
    "isinf": lambda x: isinstance(x, float) and math.isinf(x),
    "isfinite": lambda x: not isinstance(x, float) or math.isfinite(x),
    "inf": math.inf, "nan": math.nan, "e": math.e, "gcd": math.gcd,
    "isqrt": math.isqrt, "comb": math.comb, "factorial": math.factorial,
    "fsum": lambda it: _sum(it), "prod": None,
    "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: T.abs_(
        T.lift(a) - b) <= T.max2(T.lift(Fraction(rel_tol)) * T.max2(
            T.abs_(T.lift(a)), T.abs_(T.lift(b))), Fraction(abs_tol)),
}


def _math_get(n):
    if n == "pi":
        return T.pi_()
    if n in _MATH and _MATH[n] is not None:
        return _MATH[n]
    f = getattr(math, n)

    def g(*a):
        if any(isinstance(x, (Sym, SBool)) for x in a):
            T.CUR.aborted = True
            raise Unsupported("math." + n)
        return f(*[float(x) if isinstance(x, Fraction) else x for x in a])
    return g


MATH = Shim("math", _math_get)

PASS = {"functools", "itertools", "collections", "operator", "copy", "typing",
        "types", "abc", "dataclasses", "enum", "contextlib", "string", "re",
        "__future__", "numbers", "bisect", "heapq", "textwrap", "inspect",
        "collections.abc", "datetime", "logging", "weakref", "time", "gc",
        "threading", "sys", "errno", "fractions"}


class World:
    """one set of freshly loaded modules (one per explored path)"""
    code_cache = {}

    def __init__(self, engine, models):
        self.E = engine
        self.models = models          # name -> module-like
        self.mods = {}
        self.builtins = dict(BUILTINS)
        self.builtins["__import__"] = self._import
        self.files = set()

    # ------------------------------------------------------------- importing
    def model(self, name):
        if name in self.models:
            return self.models[name]
        if name == "numpy":
            return NUMPY
        if name == "numpy.linalg":
            return NUMPY.linalg
        if name == "math":
            return MATH
        if name in PASS:
            return importlib.import_module(name)
        parts = name.split(".")
        for i in range(len(parts) - 1, 0, -1):
            p = ".".join(parts[:i])
            if p in self.models or p == "numpy":
                m = self.model(p)
                for q in parts[i:]:
                    m = getattr(m, q)
                return m
        if parts[0] in ("scipy", "skimage", "matplotlib", "cv2", "h5py",
                        "PIL", "multiprocessing", "concurrent", "joblib",
                        "numba", "os", "json", "pickle", "platform",
                        "warnings", "shutil", "tempfile", "pathlib", "glob",
                        "random", "io", "csv", "uuid", "ast", "struct",
                        "hashlib", "tifffile", "imageio"):
            return _UnsupportedObj(name)
        raise ImportError("No module named %r" % name)

    def _path(self, name):
        base = os.path.join(REPO, *name.split("."))
        if os.path.isfile(base + ".py"):
            return base + ".py"
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py")
        if os.path.isdir(base):
            return ""
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        p = self._path(name)
        if p is None:
            raise ImportError("No module named %r" % name)
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        m.__file__ = p
        ispkg = p == "" or p.endswith("__init__.py")
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        self.mods[name] = m
        if "." in name:
            par, _, leaf = name.rpartition(".")
            pm = self.load(par)
            setattr(pm, leaf, m)
        if p:
            st = os.stat(p)
            key = (p, st.st_mtime_ns, st.st_size)
            co = self.code_cache.get(key)
            if co is None:
                with open(p) as f:
                    co = compile(f.read(), p, "exec", dont_inherit=True)
                self.code_cache[key] = co
            self.files.add(p)
            self.E.files.add(p)
            try:
                exec(co, m.__dict__)
            except BaseException:
                self.mods.pop(name, None)
                raise
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__", "")
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        if name.split(".")[0] == "discorpy":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f) and \
                            self._path(name + "." + f) is not None:
                        self.load(name + "." + f)
                return m
            return self.load("discorpy")
        m = self.model(name)
        if fromlist or "." not in name:
            return m
        # `import a.b.c [as m]`: hand out the top, attributes resolve below
        top = types.ModuleType(name.split(".")[0])
        cur = top
        parts = name.split(".")
        for i in range(1, len(parts)):
            sub = self.model(".".join(parts[:i + 1])) if i == len(parts) - 1 \
                else types.ModuleType(parts[i])
            setattr(cur, parts[i], sub)
            cur = sub
        try:
            t0 = self.model(parts[0])

            class _Top(types.ModuleType):
                def __getattr__(s, n):
                    return getattr(t0, n)
            top.__class__ = _Top
        except ImportError:
            pass
        return top
