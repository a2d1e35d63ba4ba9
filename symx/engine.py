"""Path exploration and obligations.

Engine runs a harness symbolically: every symbolic branch forks (depth first,
by re-execution with a decision prefix), `check` asks z3 whether the condition
can fail on the current path.  CEngine runs the same harness on concrete
values against the real modules: it replays counterexamples and validates
witnesses of the explored paths.
"""
import math
import random
import sys
import time
from fractions import Fraction

import numpy as _np

from . import terms as T
from . import smt
from .smt import z3


from .fsapi import SymFiles, ConFiles     # noqa


class PathEnd(BaseException):
    pass


class Budget(BaseException):
    pass


class AssumeFail(BaseException):
    pass


class Replayed(BaseException):
    """a check failed in a concrete run"""


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def raised(self):
        return self.exc is not None

    @property
    def ok(self):
        return self.exc is None

    def is_a(self, *types):
        return self.exc is not None and isinstance(self.exc, types)


MODS = {"post": "discorpy.post.postprocessing",
        "proc": "discorpy.proc.processing",
        "util": "discorpy.util.utility",
        "prep": "discorpy.prep.preprocessing",
        "line": "discorpy.prep.linepattern",
        "losa": "discorpy.losa.loadersaver"}


def _snap(x):
    if isinstance(x, _np.ndarray) or getattr(x, "_is_larr", False):
        return x.copy()
    if isinstance(x, dict):
        return {k: _snap(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(_snap(v) for v in x)
    return x


def _leaves(x):
    if isinstance(x, _np.ndarray):
        return [x.shape] + list(x.view(_np.ndarray).flat)
    if isinstance(x, dict):
        out = []
        for k in x:
            out.append(k)
            out += _leaves(x[k])
        return out
    if isinstance(x, (list, tuple)):
        out = [len(x)]
        for v in x:
            out += _leaves(v)
        return out
    return [x]


class Stats:
    def __init__(self):
        self.paths = 0
        self.pruned = 0
        self.branches = 0
        self.forks = 0
        self.queries = 0
        self.qtime = 0.0
        self.trivial = 0
        self.proved = 0
        self.unknown = 0
        self.violated = 0
        self.obligations = 0
        self.labels = {}
        self.unknown_labels = {}
        self.assumed_nonzero = set()
        self.unsupported = []
        self.exc_paths = 0
        self.complete = True


class Engine(SymFiles):
    sym = True
    UNROLL = 400          # decisions along one path

    extra_models = {}

    def __init__(self, name, cfg=None, budget=60.0, seed=1, max_paths=4000,
                 lin_ms=1500, full_ms=3000, long_ms=8000, hints=None,
                 nonzero="assume"):
        self.name = name
        self.cfg = cfg
        self.t_end = time.time() + budget
        self.seed = seed
        self.rng = random.Random(seed)
        self.max_paths = max_paths
        self.lin_ms, self.full_ms, self.long_ms = lin_ms, full_ms, long_ms
        self.st = Stats()
        self.inputs = {}
        self.bnds = {}
        self.on_zero = None
        self.partial = []          # inputs at places not supported
        self.zero_left = 6
        self.cex = []              # (label, inputs)
        self.witnesses = []        # inputs of explored paths
        self.on_cex = None         # callback(label, inputs) -> confirmed?
        self.want_witness = 6
        self.samples = []
        self.nonzero = nonzero
        self.nz_mode = nonzero
        self.files = set()
        self.funcs = set()
        self.hint_fns = hints or []
        self.weird = 0
        self.stop = False
        self._rk = {}

    # ------------------------------------------------------------ exploration
    def explore(self, fn):
        stack = [[]]
        T.set_engine(self)
        try:
            while stack:
                if time.time() > self.t_end or self.st.paths >= self.max_paths:
                    self.st.complete = False
                    break
                prefix = stack.pop()
                self._begin(prefix)
                try:
                    if self.st.paths < 3:
                        self._profiled(fn)
                    else:
                        fn(self)
                    self._end_path()
                except PathEnd:
                    self.st.pruned += 1
                except Budget:
                    self.st.complete = False
                except T.Unsupported as e:
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)
                    loc = ""
                    for f in tb:
                        if "/repo/" in f.filename or "<" in f.filename:
                            loc = "%s:%s" % (f.filename, f.lineno)
                    self.st.unsupported.append("%s at %s" % (e, loc))
                    self._partial()
                    self.st.paths += 1
                    if len(self.st.unsupported) > 3:
                        self.st.complete = False
                        break
                if self.aborted and not self._flag_seen:
                    self.st.unsupported.append("abort swallowed by the code")
                # schedule alternatives, deepest first
                for i in range(len(prefix), len(self.dec)):
                    v, both = self.dec[i]
                    if both:
                        stack.append(self.dec_values(i) + [(not v, False)])
                if self.stop:
                    break
        finally:
            T.set_engine(None)
        return self.st

    def _partial(self):
        """inputs that lead to a place which is not supported"""
        for lv in ("S", "S", "R", 1, 2, 3):
            if len(self.partial) >= 24 or time.time() > self.t_end:
                return
            try:
                hs = self._hint(lv)
                r, m = self._full([], 400, hs, model=True)
                if r == z3.sat:
                    self.partial.append(self._extract(m))
                    if lv == "S":
                        # with other real inputs
                        r, m = self._full([], 400, hs + self._hint("R", hs),
                                          model=True)
                        if r == z3.sat:
                            self.partial.append(self._extract(m))
            except (z3.Z3Exception, T.Unsupported):
                pass

    def _profiled(self, fn):
        import sys
        funcs = self.funcs

        def prof(frame, event, arg):
            if event == "call":
                co = frame.f_code
                if "/discorpy/" in co.co_filename and \
                        not co.co_name.startswith("<"):
                    funcs.add(co.co_filename.rpartition("/")[2][:-3] + "." +
                              co.co_name)
        sys.setprofile(prof)
        try:
            fn(self)
        finally:
            sys.setprofile(None)

    # --------------------------------------------------------- loading, data
    def load(self, name):
        from . import loader, models
        if self.world is None:
            m = models.base_models()
            m.update(self.extra_models)
            self.world = loader.World(self, m)
            from . import fs
            self.world.builtins["open"] = fs.open_
        return self.world.load(MODS.get(name, name))

    def patch(self, mod, name, f):
        setattr(mod, name, f)

    def arr(self, x, dtype=None):
        from .arr import A
        return A(x, dtype)

    def image(self, tag, shape, dtype="f4", pos=False):
        """arbitrary pixels; pos: none negative (as in unsigned types)"""
        from .arr import mk
        d = _np.dtype(dtype)
        pos = pos or d.kind == "u"
        if any(isinstance(x, T.Sym) for x in shape):
            from . import larr
            return larr.image(tag, shape, d, pos)
        out = _np.empty(shape, object)
        isint = d.kind in "iu"
        for at in _np.ndindex(*shape):
            a = T.atom("var", "pix:%s:%s" % (tag, at), (), isint, pos,
                       "pix_%s_%s" % (tag, "_".join(map(str, at))))
            if a.meta is None:
                a.meta = ("pix", tag, at, tuple(shape))
            out[at] = T.Sym(T.patom(a), (), "i" if isint else "f")
        return mk(out, d)

    def symbolic_len_ok(self, n):
        """may an array have the symbolic length n?  Only for lengths the
        harness declared as such (through big_int)"""
        return bool(self.state.get("big"))

    def big_int(self, name, lo, hi):
        self.state["big"] = True
        return self.int(name, lo, hi)

    def at(self, a, *idx):
        if getattr(a, "_is_larr", False):
            return a.at(tuple(idx))
        return a[tuple(idx)]

    def probe(self, *idx):
        self.state.setdefault("probes", []).append(tuple(idx))

    def shape_is(self, a, shape, label):
        sh = tuple(a.shape)
        if len(sh) != len(shape):
            return self.check(False, label)
        return self.check(T.band(*[T.eqv(x, y) for x, y in zip(sh, shape)]),
                          label)

    def pad(self, a, pw, mode):
        from . import npsym
        return npsym.dispatch(_np.pad, (a, pw), {"mode": mode})

    def truncs(self, v):
        """int(v): the candidates (one; floats near an integer have two)"""
        return [T._setk(T.lift(T.trunc_(v)), "i")]

    def snap(self, x):
        return _snap(x)

    def unchanged(self, x, old, label):
        a, b = _leaves(x), _leaves(old)
        if len(a) != len(b):
            return self.check(False, label)
        for u, v in zip(a, b):
            if getattr(u, "_is_larr", False):
                self.check(u.f is v.f, label)
            elif _isnum(u) and _isnum(v):
                e = T.eqv(u, v)
                if e is not True:
                    self.check(e, label)
            else:
                self.check(u is v or u == v, label)
        return self.check(True, label)

    def sample_eq(self, out, img, y, x, order, mode, label, lib="nd",
                  tol=Fraction(1, 100), crop=None):
        """out is img resampled at (y, x) in the given order and mode; with
        crop a window of the image containing the position will do"""
        from . import models
        ref = models.describe(img)
        at = out.single_atom() if isinstance(out, T.Sym) else None
        if at is None or at.meta is None or at.meta[0] != "smp":
            return self.fail(label + ": not a resampled value")
        _, d, yy, xx, lb, od, md, ex = at.meta
        W = models.Win
        if isinstance(d, W) and isinstance(ref, W):
            if d.base() != ref.base():
                return self.fail(label + ": other image")
            dy, dx = T.lift(d.oy) - ref.oy, T.lift(d.ox) - ref.ox
            yy, xx = yy + dy, xx + dx
            conds = []
            full = [(dy, 0), (dx, 0), (d.h, ref.h), (d.w, ref.w)]
            same = all(isinstance(T.eqv(a, b), bool) and T.eqv(a, b)
                       for a, b in full)
            if not same:
                # interpolation stencil inside the window (or cut by the
                # border of the whole image on the same side)
                if od > 1 and crop is None:
                    conds.append(T.band(*[T.eqv(a, b) for a, b in full]))
                else:
                    conds += [yy >= dy, yy <= dy + d.h - 1,
                              xx >= dx, xx <= dx + d.w - 1]
            self.check(T.band(*conds) if conds else True,
                       label + ": resampled window")
        elif type(d).__name__ == "PadWin" == type(ref).__name__:
            if d.bkey != ref.bkey or d.mode != ref.mode or \
                    d.extra != ref.extra:
                return self.fail(label + ": other padding")
            for p, q in zip(d.pads, ref.pads):
                for u, v in zip(p, q):
                    self.check(T.eqv(u, v), label + ": amount of padding")
        elif d != ref:
            return self.fail(label + ": other image")
        self.check(lb == lib and od == order, label + ": interpolation order")
        if order > 1 or lib == "cv":
            self.check(md == mode and ex == (), label + ": boundary mode")
        elif md != mode:
            # irrelevant for linear interpolation inside the image
            self.check(T.band(yy >= 0, xx >= 0, yy <= ref.h - 1,
                              xx <= ref.w - 1) if hasattr(ref, "w")
                       else False, label + ": boundary mode")
        self.eq(yy, y, label + ": row", tol)
        return self.eq(xx, x, label + ": column", tol)

    def ident(self, a, b):
        e = T.eqv(a, b)
        return e is True

    def unsupported(self, why):
        raise T.Unsupported(why)

    def dec_values(self, i):
        return [(v, False) for v, _ in self.dec[:i]]

    def _begin(self, prefix):
        self.prefix = prefix
        self.dec = []
        self.known = {}
        self.pc = []
        self.fresh = 0
        self.concretes = {}
        self.solver = z3.Solver()
        self.done = set()
        self.inputs = {}
        self.bnds = {}
        self.aborted = False
        self._flag_seen = False
        self.stop = getattr(self, "stop", False)
        self.order = {}
        self.records = []
        self.state = {}
        self.nz_mode = self.nonzero
        self.path_checked = 0
        self.world = None
        self.closed = []
        from . import fs
        T.TOKENS = fs.Tokens()

    def _end_path(self):
        self.st.paths += 1
        self._confirm_closed()
        if self.want_witness > 0 and time.time() < self.t_end:
            m = self.model_of([], 1500, light=True)
            if m is not None:
                self.want_witness -= 1
                self.witnesses.append(m)

    def _confirm_closed(self):
        """the equalities of this path whose sides have one normal form go to
        the solver too, as one query"""
        if not self.closed:
            return
        s = z3.Solver()
        s.set("timeout", 2000)
        alts = []
        rest = []
        for a, b in self.closed[:400]:
            u = set()
            if a.d == b.d:
                alts.append(smt.LIN.poly(a.n, u)[0] !=
                            smt.LIN.poly(b.n, u)[0])
            else:
                rest.append((a, b))
        t = time.time()
        if alts:
            s.add(z3.Or(*alts))
            r = s.check()
            self.st.queries += 1
            if r == z3.sat:
                raise T.SymError("normal forms and solver disagree")
        if rest:
            # different denominators: cross-multiplied, by z3's arithmetic
            s = z3.Solver()
            s.set("timeout", 1000)
            used = set()
            alts = []
            for a, b in rest[:40]:
                try:
                    p = [smt.FULL.poly(q, used)[0] for q in
                         (a.n, b.den(), b.n, a.den())]
                except T.TooLarge:
                    continue
                alts.append(p[0] * p[1] != p[2] * p[3])
            for f in smt.FULL.closure(used, set()):
                s.add(f)
            s.add(z3.Or(*alts))
            r = s.check()
            self.st.queries += 1
            if r == z3.sat:
                raise T.SymError("normal forms and solver disagree")
        self.st.qtime += time.time() - t

    # ------------------------------------------------------------ constraints
    def _note(self, b, val):
        self.known[b.id] = val
        n = T.bnot(b)
        if isinstance(n, T.SBool):
            self.known[n.id] = not val
        if val and b.op == "and":
            for x in b.args:
                if x.id not in self.known:
                    self._note(x, True)
        if not val and b.op == "or":
            for x in b.args:
                if x.id not in self.known:
                    self._note(x, False)

    def add(self, b):
        """assert b on this path"""
        if not isinstance(b, T.SBool):
            if not b:
                raise PathEnd()
            return
        if self.known.get(b.id) is True:
            return
        self.pc.append(b)
        self._note(b, True)
        u = set()
        f = smt.LIN.formula(b, u)
        for x in smt.LIN.closure(u, self.done):
            self.solver.add(x)
        self.solver.add(f)

    def assume(self, b):
        b = T.tobool(b) if not isinstance(b, T.SBool) else b
        self.add(b)
        if isinstance(b, T.SBool) and self._lin([]) == z3.unsat:
            raise PathEnd()

    def _lin(self, extra, ms=None):
        fs = []
        for b in extra:
            u = set()
            f = smt.LIN.formula(b, u)
            for x in smt.LIN.closure(u, self.done):
                self.solver.add(x)
            fs.append(f)
        self.solver.set("timeout", ms or self.lin_ms)
        t = time.time()
        self.solver.push()
        try:
            for f in fs:
                self.solver.add(f)
            r = self.solver.check()
        except z3.Z3Exception:
            r = z3.unknown
        finally:
            self.solver.pop()
        self.st.queries += 1
        self.st.qtime += time.time() - t
        return r

    def eval_known(self, b):
        """truth value of b from the literals on the path, or None"""
        if not isinstance(b, T.SBool):
            return bool(b)
        v = self.known.get(b.id)
        if v is not None:
            return v
        if b.op == "and":
            allt = True
            for x in b.args:
                w = self.eval_known(x)
                if w is False:
                    return False
                if w is None:
                    allt = False
            return True if allt else None
        if b.op == "or":
            allf = True
            for x in b.args:
                w = self.eval_known(x)
                if w is True:
                    return True
                if w is None:
                    allf = False
            return False if allf else None
        return None

    def branch(self, b):
        if not isinstance(b, T.SBool):
            return bool(b)
        v = self.eval_known(b)
        if v is not None:
            return v
        if time.time() > self.t_end + 5:
            self.aborted = True
            raise Budget()
        i = len(self.dec)
        if i < len(self.prefix):
            v, _ = self.prefix[i]
            self.dec.append((v, False))
            self.add(b if v else T.bnot(b))
            return v
        if i > self.UNROLL:
            self.aborted = True
            raise T.Unsupported("more than %d decisions on a path"
                                % self.UNROLL)
        nb = T.bnot(b)
        self.st.branches += 1
        rt = self._lin([b], 700)
        if rt == z3.unsat:
            self.dec.append((False, False))
            self.add(nb)
            return False
        rf = self._lin([nb], 700)
        if rf == z3.unsat:
            self.dec.append((True, False))
            self.add(b)
            return True
        # both look feasible for the abstraction: one cheap exact look
        if len(self.pc) < 60:
            if self._full([b], 150) == z3.unsat:
                self.dec.append((False, False))
                self.add(nb)
                return False
            if self._full([nb], 150) == z3.unsat:
                self.dec.append((True, False))
                self.add(b)
                return True
        self.st.forks += 1
        self.dec.append((True, True))
        self.add(b)
        return True

    def concretize(self, s):
        """fork over the integer values of s"""
        k = s.key()
        if k in self.concretes:
            return self.concretes[k]
        # candidates by bisection on branches
        n = 0
        while True:
            m = self._value_hint(s, n)
            if m is None:
                raise PathEnd()
            c = (s == m)
            if not isinstance(c, T.SBool):
                if c:
                    v = m
                    break
            elif self.branch(c):
                v = m
                break
            n += 1
            if n > 80:
                self.aborted = True
                raise T.Unsupported("too many values for an integer")
        self.concretes[k] = v
        return v

    def _value_hint(self, s, n):
        kk = (s.key(), tuple(d for d, _ in self.dec))
        tab = self.__dict__.setdefault("_vh", {})
        if kk in tab:
            return tab[kk]
        u = set()
        e = smt.LIN.real(s, u)
        for x in smt.LIN.closure(u, self.done):
            self.solver.add(x)
        self.solver.set("timeout", 1500)
        t = time.time()
        r = self.solver.check()
        self.st.queries += 1
        self.st.qtime += time.time() - t
        if r != z3.sat:
            if r == z3.unsat:
                return None
            self.aborted = True
            raise T.Unsupported("cannot enumerate an integer value")
        v = smt.to_fraction(self.solver.model().eval(e, True))
        if v is None or v.denominator != 1:
            self.aborted = True
            raise T.Unsupported("cannot enumerate an integer value")
        # determinism across re-executions: remembered by position
        tab[kk] = int(v)
        return int(v)

    def range_known(self, t, lo, hi):
        c = T.band(t >= lo, t <= hi)
        if not isinstance(c, T.SBool):
            return bool(c)
        if self.eval_known(c) is True:
            return True
        n = T.bnot(c)
        return self._lin([n], 400) == z3.unsat

    def note_nonzero(self, p):
        if p.positive() or p.scale(-1).positive():
            return
        b = T._cmp("eq", p)
        if not isinstance(b, T.SBool):
            return
        v = self.known.get(b.id)
        if v is False:
            return
        if v is True:
            raise T.ZeroDivision()
        if self.nz_mode == "fork":
            if self.branch(b):
                raise T.ZeroDivision()
            return
        key = repr(p)[:120]
        if self.on_zero is not None and key not in self.st.assumed_nonzero:
            self._probe_zero(b)
        self.st.assumed_nonzero.add(key)
        self.add(T.bnot(b))

    def _probe_zero(self, b):
        """the divisor of a division in the code is assumed to be nonzero;
        when it can be zero, the real code is run there"""
        f = sys._getframe(2)
        while f is not None and "/discorpy/" not in f.f_code.co_filename:
            f = f.f_back
        if f is None or self.zero_left <= 0 or \
                time.time() > self.t_end - 5:
            return
        self.zero_left -= 1
        if self._lin([b], 400) == z3.unsat:
            return
        for ms, lv in ((400, None), (300, 1), (300, 2)):
            r, m = self._full([b], ms, self._hint(lv, [b]) if lv else (),
                              model=True)
            if r == z3.unsat:
                if lv is None:
                    return
                continue
            if r == z3.sat:
                if self.on_zero(self._extract(m)):
                    self.stop = True
                    self.st.complete = False
                    self.aborted = True
                    raise Budget()
                return

    def note_nonneg(self, p):
        if p.nonneg():
            return
        b = T._cmp("le", p.scale(-1))
        if isinstance(b, T.SBool) and self.known.get(b.id) is None:
            self.add(b)

    # ------------------------------------------------------------- obligations
    def _full(self, extra, ms, hints=(), model=False):
        s = z3.Solver()
        s.set("timeout", ms)
        done = set()
        used = set()
        fs = []
        for b in list(self.pc) + list(extra) + list(hints):
            fs.append(smt.FULL.formula(b, used))
        for f in smt.FULL.closure(used, done):
            s.add(f)
        for f in fs:
            s.add(f)
        t = time.time()
        try:
            r = s.check()
            m = s.model() if (model and r == z3.sat) else None
        except z3.Z3Exception:
            r, m = z3.unknown, None
        self.st.queries += 1
        self.st.qtime += time.time() - t
        return (r, m) if model else r

    def _extract(self, m, ex=None):
        ex = ex or smt.FULL
        out = {}
        for n, (kind, s, lo, hi) in self.inputs.items():
            if kind == "bool":
                v = m.eval(z3.Bool(s.args[0]), True)
                out[n] = bool(z3.is_true(v))
                continue
            at = s.single_atom()
            e = ex.atom(at, set())
            v = smt.to_fraction(m.eval(e, True))
            if v is None:
                return None
            out[n] = int(v) if kind == "int" else v
        return out

    def _nice(self, kind, lo, hi):
        r = self.rng
        if kind == "int":
            if int(hi) - int(lo) > 50 and r.random() < 0.6:
                return r.randint(int(lo), int(lo) + 12)
            return r.randint(int(lo), int(hi))
        lo, hi = Fraction(lo), Fraction(hi)
        if r.random() < 0.45:
            c = [v for v in (0, 0, 1, 1, -1, Fraction(1, 2), 2)
                 if lo <= v <= hi]
            if c:
                return Fraction(r.choice(c))
        if hi - lo > 100 and r.random() < 0.7:
            hi = lo + 100 if not lo <= 0 <= hi else Fraction(40)
            if lo <= 0 <= hi:
                lo = max(lo, -20)
        q = r.choice([1, 1, 2, 4, 8])
        a, b = math.ceil(lo * q), math.floor(hi * q)
        if a > b:
            q = 64
            while math.ceil(lo * q) > math.floor(hi * q):
                q *= 8
            a, b = math.ceil(lo * q), math.floor(hi * q)
        return Fraction(r.randint(a, b), q)

    def _hint(self, level, extra=()):
        """equalities fixing part of the inputs to simple values (only those
        consistent with the linear abstraction of the path)"""
        names = [n for n, x in self.inputs.items() if x[0] != "bool"
                 and x[2] is not None and x[3] is not None]
        self.rng.shuffle(names)
        if level == "R":
            names = [n for n in names if self.inputs[n][0] == "real"]
            free = 0
        elif level == "R1":
            names = [n for n in names if self.inputs[n][0] == "real"]
            free = 1
        elif level in ("I", "S"):
            names = [n for n in names if self.inputs[n][0] == "int"]
            free = 0
        else:
            free = {0: 0, 1: 1, 2: 2, 3: max(2, len(names) // 2)}[level]
        hs = []
        t_end = time.time() + 1.0
        for n in names[free:]:
            kind, s, lo, hi = self.inputs[n]
            for _ in range(2 if level != "S" else 4):
                h = s == (self._nice(kind, lo, hi) if level != "S" else
                          self.rng.randint(int(lo), min(int(hi),
                                                        int(lo) + 12)))
                if not isinstance(h, T.SBool):
                    break
                if self.eval_known(h) is False or time.time() > t_end:
                    continue
                if self._lin(list(extra) + hs + [h], 200) != z3.unsat:
                    hs.append(h)
                    break
        return hs

    def _lin_model(self, extra):
        """inputs of a model of the linear abstraction (a candidate only)"""
        fs = []
        for b in extra:
            u = set()
            f = smt.LIN.formula(b, u)
            for x in smt.LIN.closure(u, self.done):
                self.solver.add(x)
            fs.append(f)
        self.solver.set("timeout", 500)
        self.solver.push()
        t = time.time()
        try:
            for f in fs:
                self.solver.add(f)
            m = self.solver.model() if self.solver.check() == z3.sat else None
            return self._extract(m, smt.LIN) if m is not None else None
        except z3.Z3Exception:
            return None
        finally:
            self.solver.pop()
            self.st.queries += 1
            self.st.qtime += time.time() - t

    def model_of(self, extra, ms, light=False):
        if light:
            for lv in (0, 0, 1, 1, 2, 3):
                r, m = self._full(extra, 250, self._hint(lv), model=True)
                if r == z3.sat:
                    return self._extract(m)
        plans = [] if light else \
            [(1, 500), (1, 500), (2, 800), (3, 1000)]
        r, m = self._full(extra, min(ms, 800), model=True)
        if r == z3.sat:
            return self._extract(m)
        if r == z3.unsat:
            return None
        for lv, t in plans:
            r, m = self._full(extra, t, self._hint(lv), model=True)
            if r == z3.sat:
                return self._extract(m)
        if not light:
            r, m = self._full(extra, ms, model=True)
            if r == z3.sat:
                return self._extract(m)
        return None

    def check(self, cond, label, alt=None):
        """obligation: cond holds on this path.

        alt: a weaker condition whose failure is what counts as a violation
        (exact equality is tried first, then `alt` with its margin)."""
        if time.time() > self.t_end + 10:
            self.aborted = True
            raise Budget()
        self.st.obligations += 1
        self.path_checked += 1
        L = self.st.labels.setdefault(label, [0, 0, 0, 0])
        L[0] += 1
        if not isinstance(cond, T.SBool):
            if isinstance(cond, T.Sym):
                cond = T.tobool(cond)
        v = self.eval_known(cond)
        if v is True:
            self.st.trivial += 1
            self.st.proved += 1
            L[1] += 1
            return True
        tgt = cond if alt is None else alt
        neg = T.bnot(tgt)
        if not isinstance(neg, T.SBool) and not neg:
            self.st.proved += 1
            L[1] += 1
            return True
        ok = None
        ex = [neg] if isinstance(neg, T.SBool) else []
        if alt is not None and isinstance(cond, T.SBool):
            n2 = T.bnot(cond)
            if self._lin([n2] if isinstance(n2, T.SBool) else []) == z3.unsat:
                ok = True
        if ok is None and self._lin(ex) == z3.unsat:
            ok = True
        if ok is None:
            r = self._full(ex, self.full_ms if self.st.unknown < 4 else 600)
            if r == z3.unsat:
                ok = True
            else:
                ok = self._refute(ex, label, r == z3.sat)
        if ok is True:
            self.st.proved += 1
            L[1] += 1
            self.sample(label, "proved")
        elif ok is False:
            self.st.violated += 1
            L[3] += 1
            self.stop = True
            self.aborted = self._flag_seen = True
            raise PathEnd()
        else:
            self.st.unknown += 1
            L[2] += 1
            self.st.unknown_labels[label] = \
                self.st.unknown_labels.get(label, 0) + 1
        return ok

    def _refute(self, ex, label, is_sat):
        """try to find a counterexample that replays; False if confirmed,
        True if the search shows unsat, None if undecided"""
        tries = 0
        seen = set()

        def cand(inp):
            nonlocal tries
            if inp is None:
                return False
            k = repr(sorted(inp.items()))
            if k in seen:
                return False
            seen.add(k)
            tries += 1
            self.cex.append((label, inp))
            return self.on_cex is None or self.on_cex(label, inp)
        plans = [(None, self.full_ms), ("L", 0), ("R", 700), (1, 700),
                 ("L", 0), ("R", 700), ("I", 700), (2, 1000), ("R1", 900),
                 (2, 1000), (3, 1200), (0, 500), ("R", 900), (1, 800),
                 ("L", 0), (None, self.long_ms)]
        if self.st.unknown > 3:
            plans = plans[:6]
        for lv, ms in plans:
            if time.time() > self.t_end:
                break
            if lv == "L":
                # candidates of the abstraction, decided by the replay
                for q in (0, 2):
                    if cand(self._lin_model(
                            ex + (self._hint(q, ex) if q else []))):
                        return False
                continue
            hs = self._hint(lv, ex) if lv is not None else []
            r, m = self._full(ex, ms, hs, model=True)
            if r == z3.unsat and lv is None:
                return True
            if r == z3.sat and cand(self._extract(m)):
                return False
            if tries >= 12:
                break
        if tries:
            self.weird += 1
        return None

    def sample(self, label, verdict):
        if len(self.samples) < 4:
            self.samples.append({
                "harness": self.name, "config": repr(self.cfg),
                "obligation": label, "verdict": verdict,
                "path_condition": [repr(b)[:160] for b in self.pc[-4:]]})

    def fail(self, label):
        """this path must not be feasible"""
        self.check(False, label)

    # ------------------------------------------------------------------ inputs
    def bound(self, s, lo, hi):
        ok = [v is None or isinstance(v, (int, float, Fraction))
              for v in (lo, hi)]
        if all(ok):
            self.bnds[s.single_atom().id] = (
                None if lo is None else Fraction(lo),
                None if hi is None else Fraction(hi))

    def real(self, name, lo=None, hi=None):
        s = T.real(name, nonneg=(lo is not None and lo >= 0))
        self.inputs[name] = ("real", s, lo, hi)
        if lo is not None:
            self.add(s >= lo)
        if hi is not None:
            self.add(s <= hi)
        self.bound(s, lo, hi)
        return s

    def int(self, name, lo=None, hi=None):
        s = T.integer(name, nonneg=(lo is not None and lo >= 0))
        self.inputs[name] = ("int", s, lo, hi)
        if lo is not None:
            self.add(s >= lo)
        if hi is not None:
            self.add(s <= hi)
        self.bound(s, lo, hi)
        return s

    def pixel(self, h, w, cap=70000):
        """any position in an image of that size"""
        i, j = self.int("i", 0, cap), self.int("j", 0, cap)
        self.assume(i < h)
        self.assume(j < w)
        return i, j

    def pixels(self, h, w, cap=70000, n=60):
        """as pixel; in concrete runs, that one and n others"""
        return [self.pixel(h, w, cap)]

    def bool(self, name):
        b = T.bvar(name)
        self.inputs[name] = ("bool", b, None, None)
        return b

    def choice(self, name, options):
        """fork over a finite list of options"""
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        for k in range(len(options) - 1):
            if i == k:
                return options[k]
        return options[-1]

    # ------------------------------------------------------------- arithmetic
    sqrt = staticmethod(T.sqrt_)
    abs = staticmethod(T.abs_)
    floor = staticmethod(T.floor_)
    ceil = staticmethod(T.ceil_)
    trunc = staticmethod(T.trunc_)
    rint = staticmethod(T.rint_)
    sin = staticmethod(T.sin_)
    cos = staticmethod(T.cos_)
    tan = staticmethod(T.tan_)
    atan = staticmethod(T.atan_)
    exp = staticmethod(T.exp_)
    ite = staticmethod(T.ite)
    sign = staticmethod(T.sign_)
    And = staticmethod(T.band)
    Or = staticmethod(T.bor)
    Not = staticmethod(T.bnot)
    Implies = staticmethod(T.implies)

    @property
    def pi(self):
        return T.pi_()

    @staticmethod
    def min(*a):
        if len(a) == 1:
            a = list(a[0])
        r = a[0]
        for x in a[1:]:
            r = T.min2(r, x)
        return r

    @staticmethod
    def max(*a):
        if len(a) == 1:
            a = list(a[0])
        r = a[0]
        for x in a[1:]:
            r = T.max2(r, x)
        return r

    def clip(self, x, lo, hi):
        return T.min2(T.max2(x, lo), hi)

    def q(self, x):
        return Fraction(x)

    def eq(self, a, b, label, tol=Fraction(1, 1000)):
        """a and b agree (within tol when it comes to reporting)"""
        if not _isnum(a) or not _isnum(b):
            return self.check(_num_eq(a, b), label)
        e = T.eqv(a, b)
        if e is True and isinstance(a, T.Sym):
            self.closed.append((a, T.lift(b)))
        if tol == 0:
            return self.check(e, label)
        return self.check(e, label, alt=T.near(a, b, tol))

    def same(self, a, b, label):
        return self.check(a is b or a == b, label)

    def call(self, fn, *a, **k):
        try:
            return Outcome(fn(*a, **k))
        except Exception as e:
            return Outcome(exc=e)

    def tick(self):
        self.fresh += 1
        return self.fresh


def _isnum(x):
    return isinstance(x, (int, Fraction, T.Sym, T.SBool, _np.number)) or (
        isinstance(x, float) and math.isfinite(x))


def _num_eq(a, b):
    try:
        if isinstance(a, float) and a != a:
            return isinstance(b, float) and b != b
        return bool(a == b)
    except Exception:
        return False


# ------------------------------------------------------------------- concrete
class CEngine(ConFiles):
    """the same harness on concrete values and the real code"""
    sym = False

    def __init__(self, name, cfg, inputs, slack=1.0):
        self.name = name
        self.cfg = cfg
        self.given = inputs
        self.failures = []
        self.checked = 0
        self.state = {}
        self.slack = slack
        self.records = []
        self.loaded = False
        self._clean = []

    def explore(self, fn):
        fn(self)

    def cleanup(self):
        for f in self._clean:
            try:
                f()
            except Exception:
                pass

    def load(self, name):
        import importlib
        import sys
        import os
        if not self.loaded:
            self.loaded = True
            repo = os.environ.get("VERIF_REPO", "/repo")
            for m in [m for m in sys.modules
                      if m == "discorpy" or m.startswith("discorpy.")]:
                del sys.modules[m]
            if sys.path[0] != repo:
                sys.path.insert(0, repo)
            sys.dont_write_bytecode = True
            os.environ.setdefault("MPLBACKEND", "Agg")
        m = importlib.import_module(MODS.get(name, name))
        return m

    def patch(self, mod, name, f):
        setattr(mod, name, f)

    def arr(self, x, dtype=None):
        return _np.array(x, dtype=dtype)

    def image(self, tag, shape, dtype="f4", pos=False):
        import zlib
        rng = _np.random.RandomState(zlib.crc32(repr(tag).encode()) % 2**31)
        d = _np.dtype(dtype)
        v = rng.randint(1, 120 if d.itemsize == 1 else 1000, size=shape)
        if not pos and d.kind in "if":
            v = _np.where(rng.randint(0, 3, size=shape) == 0, -v, v)
        if d.kind == "f":
            v = v + 0.25
        return v.astype(d)

    def big_int(self, name, lo, hi):
        return self.int(name, lo, hi)

    def at(self, a, *idx):
        return a[tuple(idx)]

    def probe(self, *idx):
        pass

    def shape_is(self, a, shape, label):
        return self.check(tuple(a.shape) == tuple(shape), label)

    def pad(self, a, pw, mode):
        return _np.pad(a, pw, mode=mode)

    def truncs(self, v):
        return sorted({int(v), int(v - 1e-6), int(v + 1e-6)})

    def snap(self, x):
        return _snap(x)

    def unchanged(self, x, old, label):
        a, b = _leaves(x), _leaves(old)
        return self.check(len(a) == len(b) and all(
            u is v or u == v or (u != u and v != v) for u, v in zip(a, b)),
            label)

    def sample_eq(self, out, img, y, x, order, mode, label, lib="nd",
                  tol=Fraction(1, 100), crop=None):
        img = _np.asarray(img)
        if crop is not None:
            # crop: rows and columns spanned by the positions
            (a, b), (c, d) = [(int(math.floor(lo)), int(math.ceil(hi)) + 1)
                              for lo, hi in crop]
            h, w = img.shape
            ok = False
            for g in (0, 1, 2, 8, 10 ** 9):
                y0, x0 = max(0, a - g), max(0, c - g)
                sub = CEngine(self.name, self.cfg, {})
                try:
                    sub.sample_eq(out, img[y0:b + g, x0:d + g], y - y0,
                                  x - x0, order, mode, label, lib, tol)
                    ok = True
                except Replayed:
                    pass
            return self.check(ok, label)
        # OpenCV rounds positions to 1/32 pixel for some numbers of channels
        dl = 0.004 if lib == "nd" else 0.02
        ys, xs = [], []

        def near(v):
            k = round(float(v)) - float(v)
            return (0, -dl, dl) + ((k,) if abs(k) < dl else ())
        for a in near(y):
            for b in near(x):
                yy, xx = float(y) + a, float(x) + b
                h, w = img.shape
                if 0 <= y <= h - 1 and 0 <= x <= w - 1:
                    yy = min(max(yy, 0), h - 1)
                    xx = min(max(xx, 0), w - 1)
                ys.append(yy)
                xs.append(xx)
        if lib == "nd":
            from scipy.ndimage import map_coordinates
            if img.shape[0] * img.shape[1] > 4000 and order <= 1 and \
                    0 <= y <= h - 1 and 0 <= x <= w - 1:
                y0 = max(0, int(y) - 3)
                x0 = max(0, int(x) - 3)
                ref = map_coordinates(
                    img[y0:y0 + 8, x0:x0 + 8],
                    [_np.array(ys) - y0, _np.array(xs) - x0],
                    order=order, mode=mode)
            else:
                ref = map_coordinates(img, [ys, xs], order=order, mode=mode)
        else:
            import cv2
            ref = cv2.remap(img, _np.float32([xs]), _np.float32([ys]),
                            interpolation=order, borderMode=mode)[0]
        ref = _np.asarray(ref, float)
        o = float(out)
        t = 0.06 if img.dtype.kind == "f" else 1.01
        ok = bool(_np.isfinite(o)) and (
            ref.min() - t <= o <= ref.max() + t
            if order or lib == "cv" else _np.abs(ref - o).min() <= t)
        return self.check(ok, label)

    def assume(self, b):
        if not bool(b):
            raise AssumeFail()

    add = assume

    @staticmethod
    def ident(a, b):
        try:
            return abs(float(a) - float(b)) <= 1e-7 * (1 + abs(float(b)))
        except (TypeError, ValueError):
            return False

    def real(self, name, lo=None, hi=None):
        if name not in self.given:
            raise AssumeFail()
        v = float(self.given[name])
        if lo is not None and v < float(lo) - 1e-9:
            raise AssumeFail()
        if hi is not None and v > float(hi) + 1e-9:
            raise AssumeFail()
        return v

    def int(self, name, lo=None, hi=None):
        if name not in self.given:
            raise AssumeFail()
        v = int(self.given[name])
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise AssumeFail()
        return v

    def pixel(self, h, w, cap=70000):
        if h < 1 or w < 1:
            raise AssumeFail()
        return self.int("i") % int(h), self.int("j") % int(w)

    def pixels(self, h, w, cap=70000, n=60):
        out = [self.pixel(h, w, cap)]
        h, w = int(h), int(w)
        rng = _np.random.RandomState(h * 7919 + w)
        for k in range(n):
            c = (10 ** 9, 40, 8)[k % 3]
            i, j = rng.randint(min(c, h)), rng.randint(min(c, w))
            out.append((int(h - 1 - i if k % 2 else i),
                        int(w - 1 - j if k % 5 > 2 else j)))
        return out

    def bool(self, name):
        if name not in self.given:
            raise AssumeFail()
        return bool(self.given[name])

    def choice(self, name, options):
        return list(options)[self.int(name, 0, len(options) - 1)]

    def check(self, cond, label, alt=None):
        self.checked += 1
        c = cond if alt is None else alt
        if not bool(c):
            self.failures.append(label)
            raise Replayed(label)
        return True

    def fail(self, label):
        self.check(False, label)

    def eq(self, a, b, label, tol=Fraction(1, 1000)):
        try:
            ok = abs(float(a) - float(b)) <= float(tol) * 0.9 * self.slack \
                + 1e-9 * max(abs(float(a)), abs(float(b)))
            if tol == 0:
                ok = float(a) == float(b)
            if math.isnan(float(a)) and math.isnan(float(b)):
                ok = True
        except (TypeError, ValueError):
            ok = bool(_np.all(a == b))
        return self.check(ok, label)

    def same(self, a, b, label):
        return self.check(a is b or a == b, label)

    def call(self, fn, *a, **k):
        import warnings
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return Outcome(fn(*a, **k))
        except Exception as e:
            return Outcome(exc=e)

    sqrt = staticmethod(math.sqrt)
    floor = staticmethod(math.floor)
    ceil = staticmethod(math.ceil)
    trunc = staticmethod(math.trunc)
    abs = staticmethod(abs)
    rint = staticmethod(round)
    sin = staticmethod(math.sin)
    cos = staticmethod(math.cos)
    tan = staticmethod(math.tan)
    atan = staticmethod(math.atan)
    exp = staticmethod(math.exp)
    pi = math.pi
    min = staticmethod(min)
    max = staticmethod(max)

    @staticmethod
    def sign(x):
        return (x > 0) - (x < 0)

    @staticmethod
    def ite(c, a, b):
        return a if c else b

    @staticmethod
    def And(*a):
        return all(bool(x) for x in a)

    @staticmethod
    def Or(*a):
        return any(bool(x) for x in a)

    @staticmethod
    def Not(a):
        return not a

    @staticmethod
    def Implies(a, b):
        return (not a) or bool(b)

    def clip(self, x, lo, hi):
        return min(max(x, lo), hi)

    def q(self, x):
        return float(Fraction(x))

    def tick(self):
        self.state["tick"] = self.state.get("tick", 0) + 1
        return self.state["tick"]
