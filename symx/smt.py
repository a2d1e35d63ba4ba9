"""Export of terms to z3.

Two encodings of the same formula are used:
  lin   every non-linear monomial becomes one constant (sound for `unsat`:
        the abstraction has more models), plus sign facts about it;
  full  exact non-linear real/integer arithmetic.
"""
import sys
if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
from fractions import Fraction
from . import terms as T


def _rv(c):
    if isinstance(c, int):
        return z3.RealVal(c)
    return z3.Q(c.numerator, c.denominator)


class Exporter:
    def __init__(self, mode):
        self.mode = mode
        self.acache = {}
        self.mcache = {}
        self.pcache = {}
        self.bcache = {}
        self.qcache = {}
        self.axioms = {}      # atom id -> list of z3 facts (own)
        self.deps = {}        # atom id -> set of atom ids it refers to
        self.maxioms = {}     # monomial -> facts (lin mode)
        self.ufs = {}
        self._cur = None      # collection set of atom ids

    # the collection protocol: `used` is a set of ('a',id) / ('m',mono)
    def formula(self, b, used):
        """z3 formula of b; adds the atoms/monomials it uses to `used`"""
        if not isinstance(b, T.SBool):
            return z3.BoolVal(bool(b))
        r = self.bcache.get(b.id)
        if r is None:
            u = set()
            r = (self._bool(b, u), frozenset(u))
            self.bcache[b.id] = r
        used.update(r[1])
        return r[0]

    def _bool(self, b, u):
        op = b.op
        if op == "var":
            return z3.Bool(b.args[0])
        if op == "not":
            return z3.Not(self.formula(b.args[0], u))
        if op == "and":
            return z3.And(*[self.formula(x, u) for x in b.args])
        if op == "or":
            return z3.Or(*[self.formula(x, u) for x in b.args])
        e, isint = self.poly(b.args[0], u)
        z = z3.IntVal(0) if isint else z3.RealVal(0)
        if op == "le":
            return e <= z
        if op == "lt":
            return e < z
        return e == z

    def poly(self, p, u):
        r = self.pcache.get(p.key())
        if r is None:
            uu = set()
            r = (self._poly(p, uu), frozenset(uu))
            self.pcache[p.key()] = r
        u.update(r[1])
        return r[0]

    def _poly(self, p, u):
        if not p.t:
            return z3.IntVal(0), True
        # clear denominators so that integer polynomials stay integer
        allint = all(T.ATOMS[a].is_int for m in p.t for a, _ in m)
        if allint and all(isinstance(c, int) for c in p.t.values()):
            ts = []
            for m, c in p.t.items():
                ts.append(z3.IntVal(c) if not m else
                          (z3.IntVal(c) * self.mono(m, u, True)
                           if c != 1 else self.mono(m, u, True)))
            return (z3.Sum(ts) if len(ts) > 1 else ts[0]), True
        ts = []
        for m, c in p.t.items():
            if not m:
                ts.append(_rv(c))
            else:
                e = self.mono(m, u, False)
                ts.append(e if c == 1 else _rv(c) * e)
        return (z3.Sum(ts) if len(ts) > 1 else ts[0]), False

    def mono(self, m, u, want_int):
        if len(m) == 1 and m[0][1] == 1:
            a = T.ATOMS[m[0][0]]
            e = self.atom(a, u)
            if a.is_int and not want_int:
                return z3.ToReal(e)
            return e
        if self.mode == "lin":
            isint = all(T.ATOMS[a].is_int for a, _ in m)
            e = self.mcache.get(m)
            if e is None:
                nm = "m!" + ",".join("%d^%d" % x for x in m)
                e = z3.Int(nm) if isint else z3.Real(nm)
                self.mcache[m] = e
                f = []
                odd = [a for a, k in m if k % 2 and not T.ATOMS[a].nonneg]
                if not odd:
                    f.append(e >= 0)
                uu = set()
                if len(m) == 1:      # x^k
                    x = self.atom(T.ATOMS[m[0][0]], uu)
                    k = m[0][1]
                    f.append(z3.Implies(x == 0, e == 0))
                    f.append(z3.Implies(e == 0, x == 0))
                    if k % 2:
                        f.append((x > 0) == (e > 0))
                    if k == 2 and isint:
                        f.append(e >= x)
                        f.append(e >= -x)
                elif len(m) <= 3:
                    for a, _ in m:
                        f.append(z3.Implies(
                            self.atom(T.ATOMS[a], uu) == 0, e == 0))
                self.maxioms[m] = (f, frozenset(uu))
            u.add(("m", m))
            if isint and not want_int:
                return z3.ToReal(e)
            return e
        e = None
        for a, k in m:
            at = T.ATOMS[a]
            x = self.atom(at, u)
            if at.is_int and not want_int:
                x = z3.ToReal(x)
            for _ in range(k):
                e = x if e is None else e * x
        return e

    def sym(self, s, u):
        """z3 term of a Sym (Real sort unless integral)"""
        s = T.lift(s)
        e, isint = self.poly(s.n, u)
        if not s.d:
            return e, isint
        if isint:
            e = z3.ToReal(e)
        if self.mode == "lin":
            k = s.key()
            q = self.qcache.get(k)
            if q is None:
                q = z3.Real("q!%d" % len(self.qcache))
                self.qcache[k] = q
            return q, False
        d = None
        for f, ex in s.d:
            fe, fi = self.poly(T.FACTORS[f], u)
            if fi:
                fe = z3.ToReal(fe)
            for _ in range(ex):
                d = fe if d is None else d * fe
        return e / d, False

    def real(self, s, u):
        e, i = self.sym(s, u)
        return z3.ToReal(e) if i else e

    def atom(self, a, u):
        u.add(("a", a.id))
        e = self.acache.get(a.id)
        if e is not None:
            return e
        nm = a.name if a.kind == "var" else "%s!%d" % (a.kind, a.id)
        if a.kind == "uf":
            uu = set()
            args = [self.real(x, uu) for x in a.args[1:]]
            key = (a.args[0], len(args), a.is_int)
            fn = self.ufs.get(key)
            if fn is None:
                fn = z3.Function("%s!%d" % (a.args[0], len(args)),
                                 *([z3.RealSort()] * len(args) +
                                   [z3.IntSort() if a.is_int
                                    else z3.RealSort()]))
                self.ufs[key] = fn
            e = fn(*args)
            self.acache[a.id] = e
            ax = []
            for b in a.axioms:
                ax.append(self.formula(b, uu))
            self.axioms[a.id] = ax
            self.deps[a.id] = frozenset(uu)
            return e
        e = z3.Int(nm) if a.is_int else z3.Real(nm)
        self.acache[a.id] = e
        uu = set()
        ax = []
        if a.nonneg:
            ax.append(e >= 0)
        k = a.kind
        if k == "ite":
            c, x, y = a.args
            cf = self.formula(c, uu)
            if a.is_int:
                xe, ye = self.sym(x, uu)[0], self.sym(y, uu)[0]
            else:
                xe, ye = self.real(x, uu), self.real(y, uu)
            ax.append(z3.If(cf, e == xe, e == ye))
        elif k == "abs":
            x = self.sym(a.args[0], uu)
            xe = x[0]
            if x[1] and not a.is_int:
                xe = z3.ToReal(xe)
            ax.append(z3.If(xe >= 0, e == xe, e == -xe))
        elif k == "floor":
            x = self.real(a.args[0], uu)
            r = z3.ToReal(e)
            ax += [r <= x, x < r + 1]
        elif k == "rint":
            x = self.real(a.args[0], uu)
            r = z3.ToReal(e)
            h = z3.Q(1, 2)
            ax += [r - h <= x, x <= r + h,
                   z3.Implies(z3.Or(x == r + h, x == r - h), e % 2 == 0)]
        for b in a.axioms:
            if isinstance(b, tuple) and b[0] == "sqrt":
                n, ni = self.poly(b[1], uu)
                if ni:
                    n = z3.ToReal(n)
                if self.mode == "full":
                    ax.append(z3.Implies(n >= 0, e * e == n))
                else:
                    ax.append(z3.Implies(n > 0, e > 0))
                    ax.append(z3.Implies(n == 0, e == 0))
                    ax.append(z3.Implies(z3.And(n >= 0, n <= 1),
                                         z3.And(e >= n, e <= 1)))
                    ax.append(z3.Implies(n > 1, z3.And(e <= n, e > 1)))
            else:
                ax.append(self.formula(b, uu))
        self.axioms[a.id] = ax
        self.deps[a.id] = frozenset(uu)
        return e

    def closure(self, used, done):
        """facts for everything in `used` not yet in `done` (updated)"""
        out = []
        todo = [x for x in used if x not in done]
        while todo:
            x = todo.pop()
            if x in done:
                continue
            done.add(x)
            if x[0] == "a":
                out.extend(self.axioms.get(x[1], ()))
                todo.extend(y for y in self.deps.get(x[1], ())
                            if y not in done)
            else:
                f, d = self.maxioms[x[1]]
                out.extend(f)
                todo.extend(y for y in d if y not in done)
        return out


LIN = Exporter("lin")
FULL = Exporter("full")


def reset():
    global LIN, FULL
    LIN = Exporter("lin")
    FULL = Exporter("full")


def to_fraction(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None
