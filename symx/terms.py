"""Term language of the symbolic executor.

Symbolic numbers are rational functions num/den over *atoms*; the numerator and
the factors of the denominator are polynomials with exact rational
coefficients in a canonical (expanded) form.  Atoms are variables and
applications (square root, absolute value, if-then-else, floor, ...).  Terms
are exported to z3 by smt.py.
"""
import math
from fractions import Fraction

import numpy as _np


class Unsupported(BaseException):
    """The executor has no model for the operation the code performed."""


class TooLarge(Unsupported):
    """a polynomial beyond the size limits"""


class SymError(BaseException):
    pass


# ---------------------------------------------------------------- engine hook
CUR = None          # the engine of the path being executed


def set_engine(e):
    global CUR
    CUR = e


# --------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "args", "is_int", "nonneg", "name", "axioms",
                 "red", "meta")

    def __init__(self, id_, kind, args, is_int, nonneg, name):
        self.id = id_
        self.kind = kind
        self.args = args
        self.is_int = is_int
        self.nonneg = nonneg
        self.name = name
        self.axioms = []        # SBool facts, exported with the atom
        self.red = None         # Poly that atom**2 reduces to
        self.meta = None

    def __repr__(self):
        return self.name


ATOMS = []
_ATOM_KEY = {}


def atom(kind, key, args=(), is_int=False, nonneg=False, name=None):
    k = (kind, key)
    a = _ATOM_KEY.get(k)
    if a is None:
        a = Atom(len(ATOMS), kind, args, is_int, nonneg,
                 name or "%s!%d" % (kind, len(ATOMS)))
        ATOMS.append(a)
        _ATOM_KEY[k] = a
        return a
    return a


# --------------------------------------------------------------------- polys
def _q(c):
    """number -> int or Fraction"""
    if isinstance(c, bool):
        return int(c)
    if isinstance(c, int):
        return c
    if isinstance(c, Fraction):
        return c.numerator if c.denominator == 1 else c
    if isinstance(c, (_np.bool_,)):
        return int(c)
    if isinstance(c, _np.integer):
        return int(c)
    if isinstance(c, (float, _np.floating)):
        c = float(c)
        if c != c or c in (float("inf"), float("-inf")):
            raise Unsupported("non-finite number in exact arithmetic")
        f = Fraction(c)
        return f.numerator if f.denominator == 1 else f
    raise TypeError("not a number: %r" % (c,))


def _exact_fractions():
    """constants of a symbolic run meet the floats of the code exactly"""
    def wrap(name):
        old = getattr(Fraction, name)

        def f(a, b):
            if CUR is not None and isinstance(b, float) and \
                    math.isfinite(b):
                b = Fraction(b)
            return old(a, b)
        f.__name__ = name
        f._exact = True
        setattr(Fraction, name, f)
    for n in ("add", "sub", "mul", "truediv"):
        for pre in ("__", "__r"):
            if not hasattr(getattr(Fraction, pre + n + "__"), "_exact"):
                wrap(pre + n + "__")


_exact_fractions()


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ("t", "_k", "_nn")

    def __init__(self, t):
        self.t = t
        self._k = None
        self._nn = None

    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    def __eq__(self, o):
        return self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def is_zero(self):
        return not self.t

    def const(self):
        """value if constant else None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def add(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        t = dict(a)
        for m, c in b.items():
            s = t.get(m, 0) + c
            if s == 0:
                t.pop(m, None)
            else:
                t[m] = _norm(s)
        return Poly(t)

    def scale(self, c):
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return Poly({m: _norm(v * c) for m, v in self.t.items()})

    def mul(self, o):
        c = self.const()
        if c is not None:
            return o.scale(c)
        c = o.const()
        if c is not None:
            return self.scale(c)
        if len(self.t) * len(o.t) > 60000:
            raise TooLarge("polynomial too large")
        t = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, red = _mmul(m1, m2)
                c = c1 * c2
                if red is None:
                    s = t.get(m, 0) + c
                    if s == 0:
                        t.pop(m, None)
                    else:
                        t[m] = s
                else:
                    e = Poly({m: c})
                    for aid, half in red:
                        base = ATOMS[aid].red
                        for _ in range(half):
                            e = e.mul(base)
                    extra = e if extra is None else extra.add(e)
        p = Poly({m: _norm(c) for m, c in t.items()})
        if extra is not None:
            p = p.add(extra)
        if len(p.t) > 4000:
            raise TooLarge("polynomial too large")
        return p

    def pow(self, n):
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r.mul(b)
            n >>= 1
            if n:
                b = b.mul(b)
        return r

    def nonneg(self):
        """syntactically non-negative"""
        if self._nn is None:
            ok = True
            for m, c in self.t.items():
                if c < 0:
                    ok = False
                    break
                for aid, e in m:
                    if e % 2 and not ATOMS[aid].nonneg:
                        ok = False
                        break
                if not ok:
                    break
            self._nn = ok
        return self._nn

    def positive(self):
        return self.nonneg() and self.t.get((), 0) > 0

    def is_int(self):
        for m, c in self.t.items():
            if not isinstance(c, int):
                return False
            for aid, e in m:
                if not ATOMS[aid].is_int:
                    return False
        return True

    def lead(self):
        return max(self.t)

    def atoms(self):
        s = set()
        for m in self.t:
            for aid, _ in m:
                s.add(aid)
        return s

    def __repr__(self):
        out = []
        for m, c in sorted(self.t.items()):
            out.append("%s%s" % (c, "".join(
                "*%s%s" % (ATOMS[a].name, "" if e == 1 else "^%d" % e)
                for a, e in m)))
        return " + ".join(out) or "0"


def _mmul(m1, m2):
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    red = None
    for a, e in list(d.items()):
        if e >= 2 and ATOMS[a].red is not None:
            if red is None:
                red = []
            red.append((a, e // 2))
            if e % 2:
                d[a] = 1
            else:
                del d[a]
    return tuple(sorted(d.items())), red


ZERO = Poly({})
ONE = Poly({(): 1})


def pconst(c):
    return Poly({(): c}) if c != 0 else ZERO


def patom(a):
    return Poly({((a.id, 1),): 1})


def poly_divide(n, f):
    """exact quotient n/f or None (multivariate division, lex order)."""
    if len(n.t) > 300 or len(f.t) > 40:
        return None
    lf = max(f.t)
    lc = f.t[lf]
    dlf = dict(lf)
    q = {}
    rem = dict(n.t)
    steps = 0
    while rem:
        steps += 1
        if steps > 400:
            return None
        lm = max(rem)
        d = dict(lm)
        for a, e in dlf.items():
            if d.get(a, 0) < e:
                return None
            d[a] -= e
            if d[a] == 0:
                del d[a]
        qm = tuple(sorted(d.items()))
        qc = _norm(Fraction(rem[lm]) / Fraction(lc))
        q[qm] = _norm(q.get(qm, 0) + qc)
        for m, c in f.t.items():
            mm, red = _mmul(m, qm)
            if red is not None:
                return None
            s = rem.get(mm, 0) - qc * c
            if s == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = _norm(s)
        if lm in rem:
            return None
    return Poly(q)


# ------------------------------------------------------------ denominators
FACTORS = []
_FKEY = {}


def _factor(p):
    k = p.key()
    i = _FKEY.get(k)
    if i is None:
        i = len(FACTORS)
        FACTORS.append(p)
        _FKEY[k] = i
    return i


def _split(p):
    """p = coeff * prod(single-atom factors) * rest ; -> (coeff, {fid: exp})"""
    d = {}
    common = None
    for m in p.t:
        dm = dict(m)
        if common is None:
            common = dm
        else:
            common = {a: min(e, dm[a]) for a, e in common.items() if a in dm}
        if not common:
            break
    rest = p
    if common:
        rest = Poly({tuple((a, e - common.get(a, 0)) for a, e in m
                           if e - common.get(a, 0)): c
                     for m, c in p.t.items()})
        for a, e in common.items():
            d[_factor(patom(ATOMS[a]))] = e
    c = rest.const()
    if c is not None:
        return c, d
    lc = rest.t[rest.lead()]
    rest = rest.scale(Fraction(1) / Fraction(lc))
    d[_factor(rest)] = d.get(_factor(rest), 0) + 1
    return lc, d


# ------------------------------------------------------------------ booleans
class SBool:
    __slots__ = ("op", "args", "id", "_neg")
    _tab = {}
    _all = []

    @staticmethod
    def make(op, *args):
        k = (op,) + tuple(a.id if isinstance(a, SBool) else a for a in args)
        b = SBool._tab.get(k)
        if b is None:
            b = SBool()
            b.op = op
            b.args = args
            b.id = len(SBool._all)
            b._neg = None
            SBool._all.append(b)
            SBool._tab[k] = b
        return b

    # control flow
    def __bool__(self):
        if CUR is None:
            raise SymError("symbolic branch outside of an engine")
        return CUR.branch(self)

    def __invert__(self):
        return bnot(self)

    def logical_not(self):
        return bnot(self)

    def __and__(self, o):
        if _arrlike(o):
            return NotImplemented
        return band(self, o)

    def __or__(self, o):
        if _arrlike(o):
            return NotImplemented
        return bor(self, o)

    def __xor__(self, o):
        if _arrlike(o):
            return NotImplemented
        return bor(band(self, bnot(o)), band(bnot(self), o))

    __rand__ = __and__
    __ror__ = __or__
    __rxor__ = __xor__

    # numeric use
    def num(self):
        return ite(self, 1, 0)

    def __mul__(self, o):
        return self.num() * o

    def __rmul__(self, o):
        return o * self.num()

    def __add__(self, o):
        return self.num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return o - self.num()

    def __eq__(self, o):
        if isinstance(o, SBool):
            if o is self:
                return True
            return bnot(self ^ o)
        if isinstance(o, (bool, _np.bool_)):
            return self if o else bnot(self)
        if _arrlike(o):
            return NotImplemented
        try:
            return self.num() == o
        except TypeError:
            return False

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return bnot(r)

    def __hash__(self):
        return 7

    def __index__(self):
        return 1 if bool(self) else 0

    def __repr__(self):
        return "SBool(%s %r)" % (self.op, self.args)

    def __array_ufunc__(self, *a, **k):
        return _UF(*a, **k)


def _arrlike(o):
    return isinstance(o, _np.ndarray) or getattr(o, "_is_larr", False)


_UF = None          # installed by arr.py


def bvar(name):
    return SBool.make("var", name)


def isb(b):
    return isinstance(b, SBool)


def tobool(x):
    """numeric/bool value -> bool or SBool (numpy truth)"""
    if isinstance(x, SBool):
        return x
    if isinstance(x, Sym):
        return bnot(x == 0)
    return bool(x)


def bnot(b):
    if isinstance(b, SBool):
        if b._neg is None:
            if b.op == "not":
                n = b.args[0]
            elif b.op == "le":      # p<=0  ->  -p<0
                n = SBool.make("lt", b.args[0].scale(-1))
            elif b.op == "lt":
                n = SBool.make("le", b.args[0].scale(-1))
            elif b.op == "and":
                n = bor(*[bnot(x) for x in b.args])
            elif b.op == "or":
                n = band(*[bnot(x) for x in b.args])
            else:
                n = SBool.make("not", b)
            b._neg = n
            if isinstance(n, SBool) and n._neg is None:
                n._neg = b
        return b._neg
    if isinstance(b, Sym):
        return bnot(tobool(b))
    return not b


def band(*bs):
    s = []
    seen = set()
    for b in bs:
        if isinstance(b, Sym):
            b = tobool(b)
        if isinstance(b, SBool):
            if b.op == "and":
                for x in b.args:
                    if x.id not in seen:
                        seen.add(x.id)
                        s.append(x)
            elif b.id not in seen:
                seen.add(b.id)
                s.append(b)
        elif not b:
            return False
    for b in s:
        if b._neg is not None and isinstance(b._neg, SBool) and \
                b._neg.id in seen:
            return False
    if not s:
        return True
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda x: x.id)
    return SBool.make("and", *s)


def bor(*bs):
    s = []
    seen = set()
    for b in bs:
        if isinstance(b, Sym):
            b = tobool(b)
        if isinstance(b, SBool):
            if b.op == "or":
                for x in b.args:
                    if x.id not in seen:
                        seen.add(x.id)
                        s.append(x)
            elif b.id not in seen:
                seen.add(b.id)
                s.append(b)
        elif b:
            return True
    for b in s:
        if b._neg is not None and isinstance(b._neg, SBool) and \
                b._neg.id in seen:
            return True
    if not s:
        return False
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda x: x.id)
    return SBool.make("or", *s)


def implies(a, b):
    return bor(bnot(a), b)


def _cmp(op, p):
    c = p.const()
    if c is not None:
        return c <= 0 if op == "le" else (c < 0 if op == "lt" else c == 0)
    lo, hi = prange(p)
    if lo is not None:
        if lo > 0:
            return False
        if hi < 0:
            return op != "eq"
        if op == "le" and hi <= 0:
            return True
        if op == "lt" and lo >= 0:
            return False
    lc = p.t[p.lead()]
    if op == "eq":
        p = p.scale(Fraction(1) / Fraction(lc))
        if p.positive():
            return False
        return SBool.make("eq", p)
    p = p.scale(Fraction(1) / abs(Fraction(lc)))
    if op == "lt":
        if p.nonneg():
            return False
        if p.scale(-1).positive():
            return True
    else:
        if p.positive():
            return False
        if p.scale(-1).nonneg():
            return True
    return SBool.make(op, p)


# --------------------------------------------------------------------- Sym
class Sym:
    """symbolic number: n / prod(FACTORS[f]**e)"""
    __slots__ = ("n", "d", "k")
    _is_sym = True

    def __init__(self, n, d=(), k="f"):
        self.n = n
        self.d = d
        self.k = k          # 'i' python int, 'f' float

    # -- helpers
    def key(self):
        return (self.n.key(), self.d)

    def den(self):
        p = ONE
        for f, e in self.d:
            p = p.mul(FACTORS[f].pow(e))
        return p

    def const(self):
        return self.n.const() if not self.d else (
            0 if self.n.is_zero() else None)

    def is_int(self):
        return not self.d and self.n.is_int()

    def single_atom(self):
        """the Atom if the value is exactly one atom"""
        if self.d or len(self.n.t) != 1:
            return None
        (m, c), = self.n.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return ATOMS[m[0][0]]
        return None

    def __repr__(self):
        s = "(%r)" % self.n
        if self.d:
            s += "/" + "*".join("(%r)^%d" % (FACTORS[f], e)
                                for f, e in self.d)
        return s

    def __array_ufunc__(self, *a, **k):
        return _UF(*a, **k)

    # -- arithmetic
    def __neg__(self):
        return Sym(self.n.scale(-1), self.d, self.k)

    def __pos__(self):
        return self

    def __add__(self, o):
        if o.__class__ is not Sym:
            o = _coerce(o)
            if o is NotImplemented:
                return o
        return _retry(_add2, self, o)

    __radd__ = __add__

    def __sub__(self, o):
        if o.__class__ is not Sym:
            o = _coerce(o)
            if o is NotImplemented:
                return o
        return _retry(_add2, self, -o)

    def __rsub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return _retry(_add2, o, -self)

    def __mul__(self, o):
        if o.__class__ is not Sym:
            o = _coerce(o)
            if o is NotImplemented:
                return o
        return _retry(_mulq, self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return _retry(_divq, self, o)

    def __rtruediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return _retry(_divq, o, self)

    def __floordiv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        k = _kk(self, o)
        r = floor_(_divq(self, o))
        return _setk(r, k)

    def __rfloordiv__(self, o):
        return _coerce(o).__floordiv__(self)

    def __mod__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return self - o * (self // o)

    def __rmod__(self, o):
        return _coerce(o).__mod__(self)

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __pow__(self, e, mod=None):
        if isinstance(e, Sym):
            c = e.const()
            if c is None:
                # 2-valued parity use: (-1)**(x+y)
                raise Unsupported("symbolic exponent")
            e = c
        if _arrlike(e):
            return NotImplemented
        e = _q(e)
        if isinstance(e, Fraction):
            if e == Fraction(1, 2):
                return sqrt_(self)
            if e == Fraction(-1, 2):
                return 1 / sqrt_(self)
            if e.denominator == 2:
                return sqrt_(self) ** e.numerator
            raise Unsupported("fractional power")
        if e < 0:
            return 1 / (self ** (-e))
        if e > 40:
            raise Unsupported("large power")
        n = self.n.pow(e)
        return _mk(n, tuple((f, x * e) for f, x in self.d) if e else (),
                   k=self.k)

    def __rpow__(self, b):
        c = self.const()
        if c is not None:
            return _coerce(b) ** c
        bq = _q(b)
        if bq == 1:
            return 1
        if bq == -1 and self.is_int():
            return ite((self % 2) == 0, 1, -1)
        raise Unsupported("symbolic exponent")

    def __abs__(self):
        return abs_(self)

    # -- comparisons
    def _cmpq(self, o, op):
        if o.__class__ is not Sym:
            o = _coerce(o)
            if o is NotImplemented:
                return NotImplemented
        n, d = _addq(self, -o)
        if op == "eq":
            return _cmp("eq", n)
        for f, e in d:
            if e % 2 and not FACTORS[f].nonneg():
                n = n.mul(FACTORS[f])
        return _cmp(op, n)

    def __le__(self, o):
        return self._cmpq(o, "le")

    def __lt__(self, o):
        return self._cmpq(o, "lt")

    def __ge__(self, o):
        return _flip(self, o, "le")

    def __gt__(self, o):
        return _flip(self, o, "lt")

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return False
        return self._cmpq(o, "eq")

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return True
        r = self._cmpq(o, "eq")
        return r if r is NotImplemented else bnot(r)

    def __hash__(self):
        c = self.const()
        return hash(c) if c is not None else 0

    def __bool__(self):
        return bool(bnot(self == 0))

    # -- conversions
    def __index__(self):
        if self.k != "i":
            raise TypeError("'float' object cannot be interpreted as an "
                            "integer")
        return self.concretize()

    def __int__(self):
        return trunc_(self).concretize() if isinstance(trunc_(self), Sym) \
            else int(trunc_(self))

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        raise Unsupported("float() of a symbolic value")

    def concretize(self):
        c = self.const()
        if c is not None:
            return int(c)
        if CUR is None:
            raise SymError("concretize outside engine")
        return CUR.concretize(self)

    def __floor__(self):
        return floor_(self)

    def __ceil__(self):
        return ceil_(self)

    def __trunc__(self):
        return trunc_(self)

    def __round__(self, nd=None):
        return round_(self, nd)

    # numpy-like scalar attributes
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        return _np.dtype("f8") if self.k == "f" else _np.dtype("i8")

    @property
    def real(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def conjugate(self):
        return self

    def is_integer(self):
        return self == floor_(self)

    def astype(self, dt):
        return _CAST(self, dt)

    def __format__(self, spec):
        if TOKENS is not None:
            return TOKENS.fmt(self, spec)
        return "<sym>"

    def __str__(self):
        if TOKENS is not None:
            return TOKENS.fmt(self, "")
        return repr(self)


TOKENS = None
_CAST = None


def _flip(a, o, op):
    """a >= o  (op 'le')  or a > o (op 'lt') as comparison of o - a."""
    if o.__class__ is not Sym:
        o = _coerce(o)
        if o is NotImplemented:
            return NotImplemented
    return o._cmpq(a, op)


def _kk(a, b):
    return "i" if a.k == "i" and b.k == "i" else "f"


def _setk(x, k):
    if isinstance(x, Sym):
        if x.k != k:
            return Sym(x.n, x.d, k)
        return x
    if k == "f" and isinstance(x, int):
        return Fraction(x)
    return x


def _coerce(o):
    if isinstance(o, Sym):
        return o
    if isinstance(o, SBool):
        return lift(ite(o, 1, 0))
    if isinstance(o, _np.ndarray) and o.shape == ():
        return _coerce(o.item())
    if _arrlike(o) or o is None or isinstance(o, (str, list, tuple)):
        return NotImplemented
    try:
        c = _q(o)
    except TypeError:
        return NotImplemented
    k = "i" if isinstance(o, (int, _np.integer, bool)) else "f"
    return Sym(pconst(c), (), k)


def lift(x):
    s = _coerce(x)
    if s is NotImplemented:
        raise Unsupported("not a number: %r" % type(x))
    return s


def _mk(n, d, k):
    """canonicalise; constants collapse to python numbers"""
    if not d:
        c = n.const()
        if c is not None:
            if k == "f":
                return Fraction(c)
            return c
        return Sym(n, (), k)
    if n.is_zero():
        return Fraction(0)
    nd = []
    for f, e in d:
        fp = FACTORS[f]
        if len(fp.t) == 1:
            (m, _), = fp.t.items()
            aid = m[0][0]
            a = ATOMS[aid]
            mn = min(dict(mm).get(aid, 0) for mm in n.t)
            r = min(mn, e)
            if r:
                n = Poly({tuple((x, y - (r if x == aid else 0))
                                for x, y in mm
                                if y - (r if x == aid else 0)): c
                          for mm, c in n.t.items()})
                e -= r
            if a.red is not None and e >= 2:
                # r**2 in a denominator -> its radicand
                c, dd = _split(a.red.pow(e // 2))
                n = n.scale(Fraction(1) / Fraction(c))
                nd.extend(dd.items())
                e = e % 2
        elif len(n.t) <= 120:
            while e:
                q = poly_divide(n, fp)
                if q is None:
                    break
                n = q
                e -= 1
        if e:
            nd.append((f, e))
    dd = {}
    for f, e in nd:
        dd[f] = dd.get(f, 0) + e
    d = tuple(sorted(dd.items()))
    if not d:
        c = n.const()
        if c is not None:
            return Fraction(c) if k == "f" else c
    return Sym(n, d, k)


def _addq(a, b):
    if a.d == b.d:
        return a.n.add(b.n), a.d
    da, db = dict(a.d), dict(b.d)
    na, nb = a.n, b.n
    out = {}
    for f in set(da) | set(db):
        ea, eb = da.get(f, 0), db.get(f, 0)
        m = max(ea, eb)
        out[f] = m
        if m > ea:
            na = na.mul(FACTORS[f].pow(m - ea))
        if m > eb:
            nb = nb.mul(FACTORS[f].pow(m - eb))
    return na.add(nb), tuple(sorted(out.items()))


def _add2(a, b):
    return _mk(*_addq(a, b), k=_kk(a, b))


def named(s, lim=24):
    """a large expression behind a fresh atom, defined by an axiom"""
    if not isinstance(s, Sym) or len(s.n.t) + sum(
            len(FACTORS[f].t) for f, _ in s.d) <= lim:
        return s
    a, r = fresh_atom("def", s.key(), k=s.k)
    if a.meta is None:
        a.meta = ("def",)
        a.axioms.append(eqv(Sym(patom(a).mul(s.den()), ()), Sym(s.n, ())))
    return r


def _retry(f, a, b):
    """name the operands when the result would be too large"""
    try:
        return f(a, b)
    except TooLarge:
        a2, b2 = named(a), named(b)
        if a2 is a and b2 is b:
            raise
        return f(a2, b2)


def _mulq(a, b):
    k = _kk(a, b)
    if not a.d and not b.d:
        return _mk(a.n.mul(b.n), (), k)
    # cancel single factors before multiplying
    d = {}
    for f, e in a.d + b.d:
        d[f] = d.get(f, 0) + e
    an, bn = a.n, b.n
    for f in list(d):
        fp = FACTORS[f]
        for _ in range(d[f]):
            if an == fp:
                an = ONE
            elif bn == fp:
                bn = ONE
            else:
                break
            d[f] -= 1
        if not d[f]:
            del d[f]
    return _mk(an.mul(bn), tuple(sorted(d.items())), k)


def _divq(a, b):
    if b.n.is_zero():
        raise ZeroDivision()
    c, d = _split(b.n)
    if CUR is not None:
        for f in d:
            CUR.note_nonzero(FACTORS[f])
    inv_n = pconst(_norm(Fraction(1) / Fraction(c)))
    for f, e in b.d:
        inv_n = inv_n.mul(FACTORS[f].pow(e))
    inv = Sym(inv_n, tuple(sorted(d.items())), "f")
    r = _mulq(Sym(a.n, a.d, "f"), inv)
    return _setk(r, "f")


class ZeroDivision(Exception):
    """division by a syntactic zero"""


# ------------------------------------------------------------ constructors
def real(name, nonneg=False):
    return Sym(patom(atom("var", ("r", name, nonneg), (), False, nonneg,
                          name)), (), "f")


def integer(name, nonneg=False):
    return Sym(patom(atom("var", ("i", name), (), True, nonneg, name)), (),
               "i")


def pi_():
    a = atom("var", "PI", (), False, True, "PI")
    if not a.axioms:
        x = Sym(patom(a))
        a.axioms.append(x > Fraction(314159265, 100000000))
        a.axioms.append(x < Fraction(314159266, 100000000))
    return Sym(patom(a), (), "f")


def fresh_atom(kind, key, nonneg=False, is_int=False, k="f", name=None):
    """atom with caller-supplied axioms"""
    a = atom(kind, key, (), is_int, nonneg, name)
    return a, Sym(patom(a), (), k)


def _simple(x):
    return not isinstance(x, (Sym, SBool))


# ------------------------------------------------------------ applications
def ite(c, a, b):
    if isinstance(c, Sym):
        c = tobool(c)
    if not isinstance(c, SBool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (bool, SBool, _np.bool_)) and \
            isinstance(b, (bool, SBool, _np.bool_)):
        return bor(band(c, a), band(bnot(c), b))
    a, b = lift(a), lift(b)
    if a.key() == b.key():
        return _mk(a.n, a.d, a.k)
    if c.op in ("lt", "not") and isinstance(bnot(c), SBool):
        c, a, b = bnot(c), b, a
    # same guard nested on either side
    a = _under(c, True, a)
    b = _under(c, False, b)
    k = _kk(a, b)
    at = atom("ite", (c.id, a.key(), b.key()), (c, a, b),
              a.is_int() and b.is_int(),
              (not a.d and a.n.nonneg()) and (not b.d and b.n.nonneg()))
    return Sym(patom(at), (), k)


def _under(c, pol, s):
    at = s.single_atom()
    if at is not None and at.kind == "ite" and at.args[0] is c:
        return at.args[1] if pol else at.args[2]
    return s


def prange(p):
    """(lo, hi) of a polynomial over the declared ranges of the inputs;
    None where unknown"""
    bn = getattr(CUR, "bnds", None)
    if not bn or len(p.t) > 60:
        return None, None
    lo = hi = Fraction(0)
    for m, c in p.t.items():
        tl = th = Fraction(c)
        for aid, e in m:
            b = bn.get(aid)
            if b is None:
                b = _arange_(ATOMS[aid], bn)
            if b is None or b[0] is None or b[1] is None:
                return None, None
            x, y = b[0] ** e, b[1] ** e
            if e % 2 == 0 and b[0] < 0 < b[1]:
                x, y = Fraction(0), max(x, y)
            elif x > y:
                x, y = y, x
            cs = (tl * x, tl * y, th * x, th * y)
            tl, th = min(cs), max(cs)
        lo, hi = lo + tl, hi + th
    return lo, hi


def _arange_(at, bn):
    """range of a derived atom, remembered once known"""
    if at.kind in ("sin", "cos"):
        r = (Fraction(-1), Fraction(1))
    elif at.kind in ("abs", "sqrt", "floor", "rint"):
        x = at.args[0]
        if x.d:
            return None
        lo, hi = prange(x.n)
        if lo is None:
            return None
        if at.kind == "abs":
            r = (max(Fraction(0), lo, -hi), max(abs(lo), abs(hi)))
        elif at.kind == "sqrt":
            s = 10 ** 6
            lo, hi = max(lo, 0), max(hi, 0)
            r = (Fraction(math.isqrt(int(lo * s * s)), s),
                 Fraction(math.isqrt(int(hi * s * s) + 1) + 1, s))
        elif at.kind == "floor":
            r = (Fraction(math.floor(lo)), Fraction(math.floor(hi)))
        else:
            r = (Fraction(math.floor(lo)), Fraction(math.ceil(hi)))
    elif at.kind == "ite":
        _, x, y = at.args
        if x.d or y.d:
            return None
        l1, h1 = prange(x.n)
        l2, h2 = prange(y.n)
        if l1 is None or l2 is None:
            return None
        r = (min(l1, l2), max(h1, h2))
    else:
        return None
    bn[at.id] = r
    return r


def psign(p):
    """1, -1 or None: the sign of p where it is certain (0 included)"""
    lo, hi = prange(p)
    if lo is not None and lo >= 0:
        return 1
    if hi is not None and hi <= 0:
        return -1
    return None


def _cmp_known(a, b):
    """True/False when a <= b is certain by the declared ranges"""
    d = lift(a) - lift(b)
    if _simple(d):
        return bool(d <= 0)
    if d.d:
        return None
    lo, hi = prange(d.n)
    if hi is not None and hi <= 0:
        return True
    if lo is not None and lo >= 0:
        return False
    return None


def min2(a, b):
    if _simple(a) and _simple(b):
        return a if a <= b else b
    c = _cmp_known(a, b)
    if c is not None:
        return a if c else b
    return ite(lift(a) <= lift(b), a, b)


def max2(a, b):
    if _simple(a) and _simple(b):
        return a if a >= b else b
    c = _cmp_known(a, b)
    if c is not None:
        return b if c else a
    return ite(lift(a) >= lift(b), a, b)


def abs_(x):
    if _simple(x):
        return abs(x)
    if isinstance(x, SBool):
        return ite(x, 1, 0)
    if not x.d and x.n.nonneg():
        return x
    if not x.d and x.n.scale(-1).nonneg():
        return -x
    num = _abs_poly(x.n)
    out = Sym(num, (), x.k)
    for f, e in x.d:
        fp = FACTORS[f]
        if e % 2 and not fp.nonneg():
            ap = _abs_poly(fp)
            out = out / (Sym(ap) * Sym(fp.pow(e - 1)) if e > 1 else Sym(ap))
        else:
            out = out / Sym(fp.pow(e))
    return out


def _abs_poly(p):
    """poly equal to |p| (an 'abs' atom unless the sign is known)"""
    if p.nonneg():
        return p
    if p.scale(-1).nonneg():
        return p.scale(-1)
    sg = psign(p)
    if sg is not None:
        return p if sg > 0 else p.scale(-1)
    # split off coefficient and even/non-negative atoms
    lc = p.t[p.lead()]
    c = abs(Fraction(lc))
    p1 = p.scale(_norm(Fraction(1) / Fraction(lc)))
    outer = pconst(_norm(c))
    if len(p1.t) == 1:
        (m, _), = p1.t.items()
        keep = []
        for aid, e in m:
            if ATOMS[aid].nonneg or e % 2 == 0:
                outer = outer.mul(patom(ATOMS[aid]).pow(e))
            else:
                outer = outer.mul(patom(ATOMS[aid]).pow(e - 1))
                keep.append((aid, 1))
        if not keep:
            return outer
        p1 = Poly({tuple(keep): 1})
    a = atom("abs", p1.key(), (Sym(p1),), p1.is_int(), True)
    if a.red is None:
        a.red = p1.mul(p1)
    return outer.mul(patom(a))


def sign_(x):
    if _simple(x):
        return (x > 0) - (x < 0)
    if isinstance(x, SBool):
        return ite(x, 1, 0)
    if not x.d and x.n.positive():
        return Fraction(1) if x.k == "f" else 1
    if not x.d:
        lo, hi = prange(x.n)
        if lo is not None and lo > 0:
            return Fraction(1) if x.k == "f" else 1
        if hi is not None and hi < 0:
            return Fraction(-1) if x.k == "f" else -1
    return _setk(ite(x > 0, 1, ite(x < 0, -1, 0)), x.k)


def _isqrt_q(c):
    c = Fraction(c)
    if c < 0:
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def sqrt_(x):
    if isinstance(x, (float, _np.floating)) and not math.isfinite(x):
        return x
    if isinstance(x, SBool):
        x = x.num()
    x = lift(x)
    n = x.n
    out = Sym(ONE, (), "f")
    for f, e in x.d:
        fp = FACTORS[f]
        if e % 2:
            n = n.mul(fp)
            e += 1
        out = out / abs_(Sym(fp.pow(e // 2)))
    c = n.const()
    if c is not None:
        if c < 0:
            return float("nan")
        r = _isqrt_q(c)
        if r is not None:
            return _setk(lift(r) * out, "f")
    lc = n.t[n.lead()]
    if lc > 0:
        r = _isqrt_q(lc)
        if r is not None and r != 1:
            n = n.scale(_norm(Fraction(1) / Fraction(lc)))
            out = out * r
    if len(n.t) == 1:
        (m, c), = n.t.items()
        if c == 1 and all(e % 2 == 0 for _, e in m):
            p = Poly({tuple((a, e // 2) for a, e in m): 1})
            return abs_(Sym(p)) * out
    # common monomial factor of even degree
    com = None
    for m in n.t:
        d = dict(m)
        com = d if com is None else {a: min(e, d[a]) for a, e in com.items()
                                     if a in d}
    com = {a: e - e % 2 for a, e in (com or {}).items() if e >= 2}
    if com:
        n = Poly({tuple((a, e - com.get(a, 0)) for a, e in m
                        if e != com.get(a, 0)): c for m, c in n.t.items()})
        p = Poly({tuple(sorted((a, e // 2) for a, e in com.items())): 1})
        return sqrt_(Sym(n)) * abs_(Sym(p)) * out
    # perfect square of a sum, e.g. (a-b)^2
    sq = _poly_sqrt(n)
    if sq is not None:
        return abs_(Sym(sq)) * out
    a = atom("sqrt", n.key(), (Sym(n),), False, True)
    if a.red is None:
        a.red = n
        a.axioms.append(("sqrt", n))
    if CUR is not None:
        CUR.note_nonneg(n)
    return Sym(patom(a), (), "f") * out


def _poly_sqrt(n):
    """q with q*q == n, or None (few terms only)"""
    nt = len(n.t)
    if nt not in (3, 6, 10):
        return None
    sqs = [(m, c) for m, c in n.t.items()
           if c > 0 and all(e % 2 == 0 for _, e in m) and _isqrt_q(c)]
    if len(sqs) < 2:
        return None
    lead = max(sqs)
    r0 = (tuple((a, e // 2) for a, e in lead[0]), _isqrt_q(lead[1]))
    q = Poly({r0[0]: _norm(r0[1])})
    # complete by division of cross terms
    for m, c in sorted(sqs, reverse=True):
        mm = tuple((a, e // 2) for a, e in m)
        if mm == r0[0]:
            continue
        cross, red = _mmul(mm, r0[0])
        if red is not None:
            return None
        cc = n.t.get(cross)
        if cc is None:
            continue
        q = q.add(Poly({mm: _norm(Fraction(cc) / (2 * r0[1]))}))
    return q if q.mul(q) == n else None


def floor_(x):
    if _simple(x):
        return x if isinstance(x, int) else math.floor(x)
    if isinstance(x, SBool):
        return x.num()
    if x.is_int():
        return Sym(x.n, (), "i")
    if not x.d:
        ip, rp = {}, {}
        for m, c in x.n.t.items():
            if isinstance(c, int) and all(ATOMS[a].is_int for a, _ in m):
                ip[m] = c
            else:
                rp[m] = c
        c0 = rp.get(())
        if c0 is not None:
            fl = math.floor(c0)
            if fl:
                ip[()] = ip.get((), 0) + fl
                rp[()] = c0 - fl
        if ip:
            rest = floor_(_mk(Poly(rp), (), "f"))
            return _setk(lift(rest) + Sym(Poly(ip), (), "i"), "i")
    a = atom("floor", x.key(), (x,), True, not x.d and x.n.nonneg())
    return Sym(patom(a), (), "i")


def ceil_(x):
    if _simple(x):
        return x if isinstance(x, int) else math.ceil(x)
    if isinstance(x, SBool):
        return x.num()
    r = floor_(-x)
    return -r


def trunc_(x):
    if _simple(x):
        return x if isinstance(x, int) else int(x)
    if isinstance(x, SBool):
        return x.num()
    if x.is_int():
        return Sym(x.n, (), "i")
    if not x.d and x.n.nonneg():
        return floor_(x)
    return _setk(ite(x >= 0, floor_(x), ceil_(x)), "i")


def rint_(x):
    if _simple(x):
        return x if isinstance(x, int) else round(Fraction(_q(x)))
    if isinstance(x, SBool):
        return x.num()
    if x.is_int():
        return Sym(x.n, (), "i")
    a = atom("rint", x.key(), (x,), True, not x.d and x.n.nonneg())
    return Sym(patom(a), (), "i")


def round_(x, nd=None):
    if _simple(x):
        if isinstance(x, int):
            return x
        return round(Fraction(_q(x)), nd) if nd is not None else round(
            Fraction(_q(x)))
    if not nd:
        r = rint_(x)
        return r if nd is None else _setk(r, "f")
    s = 10 ** nd if nd > 0 else Fraction(1, 10 ** (-nd))
    return _setk(lift(rint_(x * s)) / s, "f")


# trigonometry ---------------------------------------------------------------
def _neg_lead(x):
    return x.n.t[x.n.lead()] < 0


def _atan_arg(x):
    """s if x is exactly atan(s)"""
    a = x.single_atom()
    return a.args[0] if a is not None and a.kind == "atan" else None


def sin_(x):
    x = lift(x)
    c = x.const()
    if c == 0:
        return Fraction(0)
    if _neg_lead(x):
        return -lift(sin_(-x))
    s = _atan_arg(x)
    if s is not None:
        return s / sqrt_(1 + s * s)
    return _sc(x)[0]


def cos_(x):
    x = lift(x)
    c = x.const()
    if c == 0:
        return Fraction(1)
    if _neg_lead(x):
        x = -x
    s = _atan_arg(x)
    if s is not None:
        return 1 / sqrt_(1 + s * s)
    return _sc(x)[1]


def _angle(x):
    """float value of a constant angle (also c * pi), else None"""
    c = x.const()
    if c is not None:
        return float(c)
    if x.d:
        return None
    v = 0.0
    for m, c in x.n.t.items():
        if m == ():
            v += float(c)
        elif len(m) == 1 and m[0][1] == 1 and Sym(patom(
                ATOMS[m[0][0]])).key() == pi_().key():
            v += float(c) * math.pi
        else:
            return None
    return v


def _near(t, v):
    e = Fraction(1, 10 ** 14) * (1 + abs(Fraction(v)))
    return [t >= Fraction(v) - e, t <= Fraction(v) + e]


def _sc(x):
    sa = atom("sin", x.key(), (x,))
    ca = atom("cos", x.key(), (x,))
    s, c = Sym(patom(sa)), Sym(patom(ca))
    if not sa.axioms:
        ax = [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1]
        pi = pi_()
        ax.append(implies(band(x > 0, x < pi), s > 0))
        ax.append(implies(band(x < 0, x > -pi), s < 0))
        ax.append(implies(band(2 * x > -pi, 2 * x < pi), c > 0))
        ax.append(implies(x == 0, band(s == 0, c == 1)))
        # |sin x| <= |x|
        ax.append(implies(x >= 0, s <= x))
        ax.append(implies(x <= 0, s >= x))
        u = _unabs(x)
        if u is not None:
            v, w = sin_(u[0]), cos_(u[0])
            ax += [implies(u[1] >= 0, s == v), implies(u[1] <= 0, s == -v),
                   c == w]
        v = _angle(x)
        if v is not None:
            ax = ax[:1] + _near(s, math.sin(v)) + _near(c, math.cos(v))
        sa.axioms.extend(ax)
        ca.axioms.extend(ax)
    return s, c


def _unabs(x):
    """x = c*|u| -> (c*u, u), else None"""
    if x.d or len(x.n.t) != 1:
        return None
    (m, _c), = x.n.t.items()
    for i, e in m:
        at = ATOMS[i]
        if at.kind == "abs" and e == 1:
            u = lift(at.args[0])
            return x / Sym(patom(at)) * u, u
    return None


def tan_(x):
    x = lift(x)
    s = _atan_arg(x)
    if s is not None:
        return _mk(s.n, s.d, "f")
    if x.const() == 0:
        return Fraction(0)
    if _neg_lead(x):
        return -lift(tan_(-x))
    a = atom("tan", x.key(), (x,))
    t = Sym(patom(a))
    v = _angle(x)
    if v is not None and abs(math.cos(v)) > 1e-3:
        if not a.axioms:
            a.axioms += _near(t, math.tan(v))
    if not a.axioms:
        s, c = lift(sin_(x)), lift(cos_(x))
        pi = pi_()
        a.axioms += [t * c == s,
                     implies(band(x > 0, 2 * x < pi), t > x),
                     implies(band(x < 0, 2 * x > -pi), t < x),
                     implies(x == 0, t == 0)]
        u = _unabs(x)
        if u is not None:
            v = lift(tan_(u[0]))
            a.axioms += [implies(u[1] >= 0, t == v),
                         implies(u[1] <= 0, t == -v)]
    return t


def atan_(x):
    x = lift(x)
    if x.const() == 0:
        return Fraction(0)
    if _neg_lead(x):
        return -lift(atan_(-x))
    a = atom("atan", x.key(), (x,))
    t = Sym(patom(a))
    if not a.axioms:
        pi = pi_()
        a.axioms += [2 * t < pi, 2 * t > -pi,
                     implies(x > 0, t > 0), implies(x < 0, t < 0),
                     implies(x == 0, t == 0),
                     implies(x > 0, t < x), implies(x < 0, t > x)]
    return t


def exp_(x):
    x = lift(x)
    c = x.const()
    if c is not None and -700 < c < 700:
        # a constant like any other float of the code
        return Fraction(math.exp(float(c)))
    a = atom("exp", x.key(), (x,), False, True)
    e = Sym(patom(a))
    if not a.axioms:
        a.axioms += [e > 0, e >= x + 1, implies(x <= 0, e <= 1)]
    return e


def uf(name, args, is_int=False, nonneg=False, k="f", meta=None):
    args = tuple(lift(a) for a in args)
    a = atom("uf", (name, tuple(x.key() for x in args)), (name,) + args,
             is_int, nonneg)
    if meta is not None and a.meta is None:
        a.meta = meta
    return Sym(patom(a), (), k)


def eqv(a, b):
    """equality of two values as bool/SBool"""
    if isinstance(a, (SBool, bool, _np.bool_)) and isinstance(
            b, (SBool, bool, _np.bool_)):
        if not isb(a) and not isb(b):
            return bool(a) == bool(b)
        return bnot((a if isb(a) else b) ^ (b if isb(a) else a))
    return lift(a) == lift(b)


def near(a, b, tol):
    d = lift(a) - b
    if _simple(d):
        return abs(d) <= tol
    return band(d <= tol, d >= -tol)
