"""Arrays of symbolic shape: a shape and a function from index to element."""
import operator
from fractions import Fraction
from functools import reduce

import numpy as np

from . import terms as T
from . import arr
from .arr import (A, SArr, cast, dt, elem, is_num, F8, I8, B1, _UFT, obj,
                  result_dtype, mk)
from .terms import Sym, SBool, Unsupported


def unsup(m):
    if T.CUR is not None:
        T.CUR.aborted = True
    raise Unsupported(m)


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    c = T.eqv(a, b)
    if not isinstance(c, SBool):
        return bool(c)
    return bool(c)       # forks when both are possible


def prod(xs):
    r = 1
    for x in xs:
        r = r * x if not isinstance(x, Sym) else x * r
    return r


class LArr:
    _is_larr = True
    __array_priority__ = 1000

    def __init__(self, shape, f, sd, base=None, src=None, desc=None,
                 contains=None):
        self.shape = tuple(elem(s) if not isinstance(s, Sym) else s
                           for s in shape)
        self.f = f
        self.sd = sd
        self.base = base      # (tag, [per base axis ("fix", v)|("ax",k,off)],
        #                        base shape)
        self.src = src        # flattened from this array
        self.desc = desc
        self._contains = contains
        self._c = {}
        self.zero = False     # all elements are 0
        self.spots = None     # the positions of the only nonzero elements

    dtype = property(lambda s: s.sd)
    ndim = property(lambda s: len(s.shape))
    size = property(lambda s: prod(s.shape))
    T = property(lambda s: transpose(s))

    def at(self, idx):
        k = tuple(T.lift(i).key() for i in idx)
        v = self._c.get(k)
        if v is None:
            v = self.f(tuple(idx))
            self._c[k] = v
        return v

    def __hash__(self):
        return id(self)

    def __len__(self):
        return operator.index(self.shape[0])

    def __iter__(self):
        n = operator.index(self.shape[0])
        for i in range(n):
            yield self[i]

    def __contains__(self, x):
        if self._contains is not None:
            return bool(self._contains(x))
        unsup("membership in an array of symbolic size")

    def __bool__(self):
        unsup("truth value of an array of symbolic size")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return npfunc(func, args, kwargs)

    # ---------------------------------------------------------------- index
    def _take(self, cols):
        n = max(len(c) for c in cols)
        out = np.empty(n, object)
        for j in range(n):
            pos = []
            for c, d in zip(cols, self.shape):
                if len(c) not in (1, n):
                    raise IndexError("shape mismatch: indexing arrays could "
                                     "not be broadcast together")
                v = elem(c[j if len(c) == n and n > 1 else 0])
                if bool(T.lift(v) < 0):
                    v = v + d
                    if bool(T.lift(v) < 0):
                        raise IndexError("index out of bounds")
                if bool(T.lift(v) >= d):
                    raise IndexError("index out of bounds")
                pos.append(v)
            out[j] = self.at(tuple(pos))
        return mk(out, self.sd)

    def __getitem__(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        n = sum(1 for c in idx if c is not None and c is not Ellipsis)
        full = []
        for c in idx:
            if c is Ellipsis:
                full += [slice(None)] * (self.ndim - n)
            else:
                full.append(c)
        while sum(1 for c in full if c is not None) < self.ndim:
            full.append(slice(None))
        if len(full) == self.ndim and all(
                isinstance(c, (SArr, np.ndarray, list)) and
                A(c).dtype.kind in "iu" and A(c).ndim == 1 for c in full):
            return self._take([A(c) for c in full])
        plan, shape, ax, k = [], [], 0, 0
        newpos = []
        for c in full:
            if c is None:
                shape.append(1)
                k += 1
                continue
            if ax >= self.ndim:
                raise IndexError("too many indices for array")
            d = self.shape[ax]
            if isinstance(c, slice):
                lo, ln, st = norm_slice(c, d)
                plan.append(("ax", k, lo, st))
                shape.append(ln)
                k += 1
            elif isinstance(c, (SArr, np.ndarray, list, LArr)):
                unsup("fancy index into an array of symbolic size")
            else:
                c = elem(c)
                if isinstance(c, (Fraction, float)):
                    raise IndexError("only integers, slices are valid")
                if bool(T.lift(c) < 0):
                    c = c + d
                    if bool(T.lift(c) < 0):
                        raise IndexError("index out of bounds")
                if bool(T.lift(c) >= d):
                    raise IndexError("index out of bounds")
                plan.append(("fix", c))
            ax += 1

        def f(i):
            return self.at(tuple(p[1] if p[0] == "fix" else
                                 (i[p[1]] if p[3] == 1 and _zero(p[2]) else
                                  T.lift(p[2]) + (i[p[1]] if p[3] == 1 else
                                                  T.lift(p[3]) * i[p[1]]))
                                 for p in plan))
        if not shape:
            return f(())
        base = None
        if self.base is not None and all(
                p[0] == "fix" or p[3] == 1 for p in plan):
            tag, m, bs = self.base
            nm = []
            for q in m:
                if q[0] == "fix":
                    nm.append(q)
                else:
                    p = plan[q[1]]
                    if p[0] == "fix":
                        nm.append(("fix", q[2] + p[1]))
                    else:
                        nm.append(("ax", p[1], q[2] + p[2]))
            base = (tag, nm, bs)
        return LArr(shape, f, self.sd, base=base)

    def __setitem__(self, idx, val):
        if isinstance(idx, LArr) and idx.sd == B1:
            old = self.f
            v = val
            if isinstance(v, LArr):
                unsup("masked store")
            v = cast(v, self.sd)
            self._wr(lambda i: T.ite(idx.at(i), v, old(i)))
            return
        if not isinstance(idx, tuple):
            idx = (idx,)
        if len(idx) == 1 and idx[0] is Ellipsis or all(
                isinstance(c, slice) and c == slice(None) for c in idx):
            v = bc(val, self.shape, self.sd)
            self._wr(lambda i: v(i))
            return
        if any(isinstance(c, (LArr, SArr, np.ndarray, list)) for c in idx):
            unsup("fancy store into an array of symbolic size")
        conds = []
        free = []
        full = list(idx) + [slice(None)] * (self.ndim - len(idx))
        shape = []
        for ax, c in enumerate(full):
            d = self.shape[ax]
            if isinstance(c, slice):
                lo, ln, st = norm_slice(c, d, True)
                if isinstance(st, Sym) or st != 1:
                    if not is_num(val):
                        unsup("strided store")
                    ps, k = [], T.lift(0)
                    while bool(k < ln):
                        ps.append(T.lift(lo) + k)
                        k = k + st
                    free.append((ax, lo))
                    conds.append((ax, ps, "st"))
                    shape.append(len(ps))
                    continue
                free.append((ax, lo))
                conds.append((ax, lo, ln))
                shape.append(ln)
            else:
                c = elem(c)
                if bool(T.lift(c) < 0):
                    c = c + d
                if bool(T.bor(T.lift(c) >= d, T.lift(c) < 0)):
                    raise IndexError("index out of bounds")
                conds.append((ax, c, None))
        v = bc(val, tuple(shape), self.sd)
        old = self.f
        zero, spots = self.zero, None
        if zero and is_num(val) and all(n == "st" for _, _, n in conds):
            spots = [()]
            for _, ps, _ in conds:
                spots = [p + (q,) for p in spots for q in ps]

        def f(i):
            cs = []
            for ax, lo, ln in conds:
                if isinstance(ln, str):
                    cs.append(T.bor(*[T.eqv(i[ax], p) for p in lo]))
                elif ln is None:
                    cs.append(T.eqv(i[ax], lo))
                else:
                    cs += [T.lift(i[ax]) >= lo, T.lift(i[ax]) < T.lift(lo)
                           + ln]
            c = T.band(*cs)
            if c is True or (isinstance(c, SBool) and T.CUR is not None and
                             T.CUR.eval_known(c) is True):
                return v(tuple(T.lift(i[ax]) - lo for ax, lo in free))
            if c is False:
                return old(i)
            return T.ite(c, v(tuple(T.lift(i[ax]) - lo for ax, lo in free)),
                         old(i))
        self._wr(f)
        self.spots = spots

    def _wr(self, f):
        old = self.f
        self.f = f
        self._c = {}
        self.base = None
        self.src = None
        self.desc = None
        self._contains = None
        self.zero = False
        self.spots = None

    # -------------------------------------------------------------- methods
    def astype(self, d, *a, **k):
        d = dt(d)
        if d == self.sd:
            return self
        return LArr(self.shape, lambda i: cast(self.at(i), d), d,
                    base=self.base, contains=self._contains if
                    d.kind in "iu" and d.itemsize == 8 else None)

    def copy(self, *a, **k):
        return LArr(self.shape, self.f, self.sd, self.base, self.src,
                    self.desc, self._contains)

    def flatten(self, *a, **k):
        return reshape(self, (-1,))

    ravel = flatten

    def reshape(self, *s, **k):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        return reshape(self, s)

    def transpose(self, *a):
        if a:
            unsup("transpose with axes")
        return transpose(self)

    def sum(self, axis=None, **k):
        return npfunc(np.sum, (self,), {"axis": axis})

    def min(self, axis=None, **k):
        return npfunc(np.min, (self,), {"axis": axis})

    def max(self, axis=None, **k):
        return npfunc(np.max, (self,), {"axis": axis})

    def clip(self, a=None, b=None, **k):
        return npfunc(np.clip, (self, a, b), {})

    def round(self, *a, **k):
        return npfunc(np.round, (self,) + a, {})

    def fill(self, v):
        self[...] = v

    def tolist(self):
        unsup("tolist of an array of symbolic size")

    def mean(self, axis=None, **k):
        return npfunc(np.mean, (self,), {"axis": axis})

    def item(self):
        unsup("item")

    def describe(self):
        from .models import Win
        if self.desc is not None:
            return self.desc
        if self.ndim != 2:
            unsup("resampling of a %d-dimensional array" % self.ndim)
        if self.base is not None:
            tag, m, bs = self.base
            axs = [n for n, q in enumerate(m) if q[0] == "ax"]
            if len(axs) == 2 and m[axs[0]][1] == 0 and m[axs[1]][1] == 1:
                ya, xa = axs
                fix = lambda r: tuple(T.lift(m[n][1]).key()    # noqa
                                      if not isinstance(m[n][1], int)
                                      else m[n][1] for n in r)
                return Win(tag, fix(range(0, ya)),
                           fix(list(range(ya + 1, xa)) +
                               list(range(xa + 1, len(m)))),
                           m[ya][2], m[xa][2], self.shape[0], self.shape[1],
                           bs[ya], bs[xa])
        return ("lam", id(self))


def _op(ufn):
    def f(self, o):
        if not (is_num(o) or isinstance(o, (LArr, np.ndarray, list, tuple))):
            return NotImplemented
        return ufunc_(ufn, "__call__", (self, o), {})

    def r(self, o):
        if not (is_num(o) or isinstance(o, (LArr, np.ndarray, list, tuple))):
            return NotImplemented
        return ufunc_(ufn, "__call__", (o, self), {})
    return f, r


for _n, _u in (("add", np.add), ("sub", np.subtract), ("mul", np.multiply),
               ("truediv", np.divide), ("pow", np.power), ("mod", np.mod),
               ("floordiv", np.floor_divide), ("and", np.bitwise_and),
               ("or", np.bitwise_or), ("xor", np.bitwise_xor)):
    _f, _r = _op(_u)
    setattr(LArr, "__%s__" % _n, _f)
    setattr(LArr, "__r%s__" % _n, _r)
for _n, _u in (("lt", np.less), ("le", np.less_equal), ("gt", np.greater),
               ("ge", np.greater_equal), ("eq", np.equal),
               ("ne", np.not_equal)):
    setattr(LArr, "__%s__" % _n, _op(_u)[0])
LArr.__neg__ = lambda s: ufunc_(np.negative, "__call__", (s,), {})
LArr.__abs__ = lambda s: ufunc_(np.absolute, "__call__", (s,), {})
LArr.__invert__ = lambda s: ufunc_(np.invert, "__call__", (s,), {})
LArr.__hash__ = lambda s: id(s)


def _zero(x):
    return isinstance(x, int) and x == 0


def norm_slice(s, d, symstep=False):
    st = 1 if s.step is None else elem(s.step)
    if isinstance(st, Sym) and symstep and bool(st > 0):
        pass
    elif isinstance(st, Sym):
        st = st.concretize()
    if not isinstance(st, Sym) and st < 0:
        if s.start is None and s.stop is None and st == -1:
            return T.lift(d) - 1, d, -1
        unsup("negative step")

    def lim(v, default):
        if v is None:
            return default
        v = elem(v)
        if isinstance(v, (Fraction, float)):
            raise TypeError("slice indices must be integers")
        if isinstance(v, Sym) and v.k == "f":
            raise TypeError("slice indices must be integers or None or have "
                            "an __index__ method")
        if bool(T.lift(v) < 0):
            v = T.lift(v) + d
            if bool(v < 0):
                v = 0
        if bool(T.lift(v) > d):
            return d
        return v
    lo = lim(s.start, 0)
    hi = lim(s.stop, d)
    ln = T.lift(hi) - lo
    if bool(ln < 0):
        ln = 0
    if not symstep and st != 1:
        ln = T.ceil_(T.lift(ln) / st)
    ln = elem(ln.const()) if isinstance(ln, Sym) and ln.const() is not None \
        else ln
    if isinstance(ln, Sym):
        ln = T._setk(ln, "i")
    return lo, ln, st


def bc(val, shape, sd=None):
    """value broadcast to shape: function of index"""
    if isinstance(val, (list, tuple)):
        from .npsym import _asarray
        val = _asarray(val)
    if isinstance(val, SArr):
        val = lift(val)
    if isinstance(val, LArr):
        vs = val.shape
        off = len(shape) - len(vs)
        if off < 0:
            if all(isinstance(d, int) and d == 1 for d in vs[:-off]):
                v0 = val
                val = LArr(vs[-off:], lambda i: v0.at((0,) * -off + tuple(i)),
                           v0.sd)
                vs = val.shape
                off = 0
            else:
                raise ValueError("could not broadcast input array")
        one = []
        for k, d in enumerate(vs):
            if isinstance(d, int) and d == 1:
                one.append(True)
            elif same_dim(d, shape[off + k]):
                one.append(False)
            else:
                raise ValueError("could not broadcast input array from shape "
                                 "into shape")

        def f(i):
            v = val.at(tuple(0 if o else i[off + k]
                             for k, o in enumerate(one)))
            return cast(v, sd) if sd is not None and sd != val.sd else v
        return f
    v = elem(val)
    if sd is not None:
        v = cast(v, sd)
    return lambda i: v


def lift(a):
    """SArr -> LArr"""
    if isinstance(a, LArr):
        return a
    a = A(a)
    o = obj(a)

    def f(i):
        v = o
        for k, x in enumerate(i):
            x = elem(x)
            if isinstance(x, Sym) and x.const() is not None:
                x = x.const()
            if isinstance(x, Sym):
                parts = [f(tuple(i[:k]) + (q,) + tuple(i[k + 1:]))
                         for q in range(o.shape[k])]
                return arr.pick(parts, x)
        return o[tuple(int(x) for x in i)]
    return LArr(o.shape, f, a.sd)


def bshape(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            e = s[j]
            if isinstance(e, int) and e == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = e
            elif not same_dim(d, e):
                raise ValueError("operands could not be broadcast together")
            elif isinstance(e, int):
                d = e
        out.append(d)
    return tuple(out)


def ufunc_(uf, method, inputs, kw):
    name = uf.__name__
    out = kw.get("out")
    if isinstance(out, tuple):
        out = out[0]
    if kw.get("where", True) is not True:
        unsup("ufunc where on symbolic size")
    if name == "matmul":
        unsup("matmul on symbolic size")
    if method == "reduce":
        fn = {"add": np.sum, "minimum": np.min, "maximum": np.max}.get(name)
        if fn is None:
            unsup("reduce " + name)
        return npfunc(fn, inputs[:1], {"axis": kw.get("axis", 0)})
    if method == "outer":
        a, b = [lift(x) if not is_num(x) else x for x in inputs]
        sh = a.shape + b.shape
        na = len(a.shape)
        fn = _UFT[name]
        rd = result_dtype(name, uf, [np.empty(0, a.sd), np.empty(0, b.sd)])
        return LArr(sh, lambda i: fix(fn(a.at(i[:na]), b.at(i[na:])), rd),
                    rd)
    if method != "__call__":
        unsup("ufunc method %s on symbolic size" % method)
    ins = []
    for x in inputs:
        if isinstance(x, (list, tuple)):
            from .npsym import _asarray
            x = _asarray(x)
        ins.append(x)
    fn = _UFT.get(name)
    if fn is None:
        unsup("ufunc " + name)
    shapes = [tuple(x.shape) for x in ins
              if isinstance(x, (LArr, np.ndarray))]
    shape = bshape(shapes)
    rd = dt(kw.get("dtype")) or result_dtype(
        name, uf, [np.empty(0, x.sd) if isinstance(x, LArr) else x
                   for x in ins])
    fs = [bc(x, shape) for x in ins]
    src = None
    first = [x for x in ins if isinstance(x, LArr)][0]
    r = LArr(shape, lambda i: fix(fn(*[f(i) for f in fs]), rd, name), rd)
    # flattened operands stay tied to their two-dimensional source
    if all(is_num(x) or (isinstance(x, LArr) and x.src is not None and
                         len(x.shape) == len(first.shape)) for x in ins):
        ss = [x.src if isinstance(x, LArr) else x for x in ins]
        r.src = ufunc_(uf, method, tuple(ss), {})
        r.f = _flat_f(r.src, r.shape)
    if out is not None:
        out[...] = r
        return out
    return r


ufunc = ufunc_


def fix(v, rd, name=""):
    if rd.kind == "f":
        if isinstance(v, (int, bool)):
            return Fraction(v)
        if isinstance(v, Sym) and v.k == "i":
            return T._setk(v, "f")
        if isinstance(v, SBool):
            return v.num()
    elif rd.kind in "iu":
        if isinstance(v, (bool, SBool)):
            return cast(v, I8)
        if rd.itemsize < 4 and name in ("add", "subtract", "multiply",
                                        "negative"):
            return arr.wrap_int(v, rd)
    return v


# --------------------------------------------------------------- construction
def full(shape, v, d):
    r = LArr(shape, lambda i: v, d)
    r.zero = is_num(v) and not isinstance(v, Sym) and v == 0
    return r


def dilate(inp, st, border):
    """binary dilation of single pixels by a structure of any size"""
    sp = inp.spots
    st = lift(st) if not isinstance(st, LArr) else st
    c = [T.floor_(T.lift(n) / 2) for n in st.shape]

    def f(i):
        hit = []
        for p in sp:
            o = [T.lift(a) - b + m for a, b, m in zip(i, p, c)]
            ok = T.band(*[T.band(x >= 0, x < n)
                          for x, n in zip(o, st.shape)])
            if ok is False:
                continue
            v = st.at(tuple(T._setk(x, "i") if isinstance(x, Sym) else x
                            for x in o))
            hit.append(T.band(ok, v if isinstance(v, SBool) else
                              T.bnot(T.eqv(v, 0))))
        return T.bor(*hit) if hit else False
    return LArr(inp.shape, f, B1)


def arange(lo, n, d):
    n = T._setk(T.lift(n), "i")
    if bool(n < 0):
        n = 0
    wide = d.kind in "iu" and d.itemsize == 8

    def f(i):
        v = T.lift(lo) + i[0]
        return cast(T._setk(v, "i") if isinstance(v, Sym) and
                    d.kind in "iu" else v, d)

    def cont(x):
        x = T.lift(elem(x))
        if not wide and not d.kind == "f":
            bits = 8 * d.itemsize
            top = 1 << (bits - 1)
            if not T.CUR.range_known(T.lift(lo) + n, -top, top):
                if not bool(T.lift(lo) + n <= top):
                    # wrapped: the values are those of the whole type
                    q = T.ite(T.lift(lo) + n >= 2 * top, 2 * top,
                              T.lift(lo) + n)
                    hit = T.bor(T.band(x >= 0, x < top),
                                T.band(x < 0, x + 2 * top < q))
                    return T.band(hit, T.eqv(T.floor_(x), x))
        return T.band(x >= lo, x < T.lift(lo) + n, T.eqv(T.floor_(x), x))
    return LArr((n,), f, d, contains=cont)


def linspace(start, stop, num, endpoint=True):
    div = num - 1 if endpoint else num
    return LArr((num,), lambda i: cast(
        T.lift(start) + (T.lift(stop) - start) * i[0] / div, F8), F8)


def grid(axes, sparse=False):
    axes = [lift(a) for a in axes]
    shape = tuple(a.shape[0] for a in axes)
    outs = []
    for k, a in enumerate(axes):
        if sparse:
            sh = tuple(s if n == k else 1 for n, s in enumerate(shape))
        else:
            sh = shape
        outs.append(LArr(sh, lambda i, k=k, a=a: a.at((i[k],)), a.sd))
    return outs if sparse else stack(outs, 0)


def stack(parts, axis=0):
    parts = [lift(p) if not isinstance(p, LArr) else p for p in parts]
    sh = parts[0].shape
    for p in parts[1:]:
        if len(p.shape) != len(sh) or not all(
                same_dim(a, b) for a, b in zip(p.shape, sh)):
            raise ValueError("all input arrays must have the same shape")
    nd = len(sh) + 1
    axis = axis % nd
    sd = reduce(np.promote_types, [p.sd for p in parts])
    shape = sh[:axis] + (len(parts),) + sh[axis:]

    def f(i):
        k = elem(i[axis])
        rest = tuple(i[:axis]) + tuple(i[axis + 1:])
        if isinstance(k, Sym) and k.const() is not None:
            k = k.const()
        if isinstance(k, Sym):
            return arr.pick([cast(p.at(rest), sd) for p in parts], k)
        return cast(parts[int(k)].at(rest), sd)
    r = LArr(shape, f, sd)
    r.parts = (axis, parts)
    return r


def transpose(a):
    r = LArr(a.shape[::-1], lambda i: a.at(tuple(i[::-1])), a.sd)
    if a.base is not None:
        tag, m, bs = a.base
        n = a.ndim
        r.base = (tag, [q if q[0] == "fix" else ("ax", n - 1 - q[1], q[2])
                        for q in m], bs)
    return r


def _flat_f(src, shape):
    """element function of src flattened (C order) and shaped as `shape`"""
    def f(i):
        # linear position
        p = 0
        for d, x in zip(shape, i):
            p = T.lift(p) * d + x
        idx = []
        for d in reversed(src.shape[1:]):
            q = T._setk(T.lift(T.floor_(T.lift(p) / d)), "i")
            idx.append(T._setk(T.lift(p) - q * T.lift(d), "i"))
            p = q
        idx.append(p)
        return src.at(tuple(reversed(idx)))
    return f


def reshape(a, shape):
    if isinstance(shape, (int, Sym)):
        shape = (shape,)
    shape = [elem(s) if not isinstance(s, Sym) else s for s in shape]
    src = a.src if a.src is not None else a
    neg = [k for k, s in enumerate(shape) if isinstance(s, int) and s == -1]
    total = prod(src.shape)
    if neg:
        rest = prod([s for s in shape if not (isinstance(s, int) and
                                              s == -1)])
        if isinstance(rest, int) and rest == 1:
            shape[neg[0]] = total
        else:
            # one dimension against the source shape
            q = T.lift(total) / rest
            if isinstance(q, Sym) and q.d:
                unsup("reshape with an inferred dimension")
            shape[neg[0]] = T._setk(q, "i") if isinstance(q, Sym) else q
    else:
        if not same_dim(prod(shape), total):
            raise ValueError("cannot reshape array of this size")
    shape = tuple(shape)
    if len(shape) == len(src.shape) and all(
            T.eqv(x, y) is True for x, y in zip(shape, src.shape)):
        return src
    r = LArr(shape, _flat_f(src, shape), a.sd, src=src)
    return r


# --------------------------------------------------------------- numpy calls
def _bounds(a):
    return list(a.shape)


def _extreme(a, less, what):
    """min/max over an array of symbolic size: a fresh value that is attained
    at some index and bounds the values at the probe indices"""
    E = T.CUR
    n = E.tick()
    if a.src is not None:
        a = a.src
    w = []
    for k, d in enumerate(a.shape):
        if isinstance(d, int):
            x = T.integer("arg%s!%d_%d" % (what, n, k), nonneg=True)
        else:
            x = T.integer("arg%s!%d_%d" % (what, n, k), nonneg=True)
        E.add(x >= 0)
        E.add(x < d)
        w.append(x)
    m = T.real("%s!%d" % (what, n)) if a.sd.kind == "f" else \
        T.integer("%s!%d" % (what, n))
    E.add(T.eqv(m, a.at(tuple(w))))
    probes = [tuple(0 for _ in a.shape), tuple(T.lift(d) - 1
                                               for d in a.shape)]
    if len(a.shape) == 2:
        probes += [(0, T.lift(a.shape[1]) - 1), (T.lift(a.shape[0]) - 1, 0)]
    for p in E.state.get("probes", []):
        if len(p) == len(a.shape):
            probes.append(p)
    for p in probes:
        v = a.at(p)
        ok = T.band(*[T.band(T.lift(i) >= 0, T.lift(i) < d)
                      for i, d in zip(p, a.shape)])
        E.add(T.implies(ok, (T.lift(m) <= v) if what == "min"
                        else (T.lift(m) >= v)))
    return m


def npfunc(func, args, kw):
    kw = {k: v for k, v in kw.items() if v is not np._NoValue}
    h = _F.get(func)
    if h is None:
        unsup("numpy.%s on symbolic size" % getattr(func, "__name__", func))
    return h(*args, **kw)


def _f_sum(a, axis=None, **k):
    a = lift(a)
    if axis is None:
        unsup("sum over a symbolic size")
    axis = axis % a.ndim
    n = a.shape[axis]
    if isinstance(n, Sym):
        if n.const() is None:
            unsup("sum over a symbolic size")
        n = n.const()
    n = int(n)
    sh = a.shape[:axis] + a.shape[axis + 1:]
    sd = I8 if a.sd.kind in "iub" and a.sd.itemsize < 8 else a.sd

    def f(i):
        r = 0 if a.sd.kind != "f" else Fraction(0)
        for q in range(n):
            v = a.at(tuple(i[:axis]) + (q,) + tuple(i[axis:]))
            r = r + (v.num() if isinstance(v, SBool) else v)
        return r
    if not sh:
        return f(())
    return LArr(sh, f, sd)


def _f_mean(a, axis=None, **k):
    s = _f_sum(a, axis=axis)
    n = lift(a).shape[axis]
    return s / n


def _f_min(what):
    def g(a, axis=None, **k):
        a = lift(a)
        if axis is None or (len(a.shape) == 1 and axis in (0, -1)):
            return _extreme(a, None, what)
        unsup("%s along an axis of symbolic size" % what)
    return g


def _f_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a
    if lo is not None:
        r = ufunc_(np.maximum, "__call__", (r, lo), {})
    if hi is not None:
        r = ufunc_(np.minimum, "__call__", (r, hi), {})
    if out is not None:
        out[...] = r
        return out
    return r


def _f_meshgrid(*xs, indexing="xy", sparse=False, copy=True):
    ax = [lift(x) if not isinstance(x, LArr) else x for x in xs]
    if len(ax) != 2:
        unsup("meshgrid of %d axes" % len(ax))
    x, y = ax
    x = x.src if x.src is not None and len(x.src.shape) == 1 else x
    if indexing == "xy":
        sh = (y.shape[0], x.shape[0])
        if sparse:
            return [LArr((1, sh[1]), lambda i: x.at((i[1],)), x.sd),
                    LArr((sh[0], 1), lambda i: y.at((i[0],)), y.sd)]
        return [LArr(sh, lambda i: x.at((i[1],)), x.sd),
                LArr(sh, lambda i: y.at((i[0],)), y.sd)]
    sh = (x.shape[0], y.shape[0])
    return [LArr(sh, lambda i: x.at((i[0],)), x.sd),
            LArr(sh, lambda i: y.at((i[1],)), y.sd)]


def _f_round(a, decimals=0, **k):
    if decimals:
        unsup("round to decimals")
    return ufunc_(np.rint, "__call__", (a,), {}) if a.sd.kind == "f" else a


def _f_where(c, x=None, y=None):
    if x is None:
        unsup("where without values on symbolic size")
    sh = bshape([tuple(v.shape) for v in (c, x, y)
                 if isinstance(v, (LArr, np.ndarray))])
    fc, fx, fy = bc(c, sh), bc(x, sh), bc(y, sh)
    rd = result_dtype("add", np.add, [
        np.empty(0, v.sd) if isinstance(v, LArr) else v for v in (x, y)])
    return LArr(sh, lambda i: fix(T.ite(T.tobool(fc(i)), fx(i), fy(i)), rd),
                rd)


def _f_vstack(parts, **k):
    parts = [lift(p) for p in parts]
    if all(p.ndim == 1 for p in parts):
        r = stack(parts, 0)
        if all(p.src is not None for p in parts):
            r.srcs = [p.src for p in parts]
        return r
    unsup("vstack of symbolic sizes")


def _f_stack(parts, axis=0, **k):
    return stack(list(parts), axis)


def _f_moveaxis(a, s, d):
    n = a.ndim
    s, d = s % n, d % n
    order = [k for k in range(n) if k != s]
    order.insert(d, s)
    return _perm(a, order)


def _perm(a, order):
    inv = [order.index(k) for k in range(len(order))]
    r = LArr(tuple(a.shape[k] for k in order),
             lambda i: a.at(tuple(i[inv[k]] for k in range(len(order)))),
             a.sd)
    if a.base is not None:
        tag, m, bs = a.base
        r.base = (tag, [q if q[0] == "fix" else ("ax", inv[q[1]], q[2])
                        for q in m], bs)
    return r


def _f_transpose(a, axes=None):
    if axes is None:
        return transpose(a)
    return _perm(a, [x % a.ndim for x in axes])


def _f_pad(a, pad_width, mode="constant", **k):
    a = lift(a)
    if is_num(pad_width):
        pw = [(pad_width, pad_width)] * a.ndim
    else:
        pw = list(pad_width)
        if len(pw) == 2 and all(is_num(x) for x in pw):
            pw = [tuple(pw)] * a.ndim
        if len(pw) != a.ndim:
            raise ValueError("operands could not be broadcast together")
        pw = [tuple(p) if not is_num(p) else (p, p) for p in pw]
    for p in pw:
        for v in p:
            v = elem(v)
            if isinstance(v, (Fraction, float)) or (
                    isinstance(v, Sym) and v.k == "f"):
                raise TypeError("`pad_width` must be of integral type.")
            if bool(T.lift(v) < 0):
                raise ValueError("index can't contain negative values")
    shape = []
    for d, (b, e) in zip(a.shape, pw):
        s = T.lift(d) + b + e
        c = s.const() if isinstance(s, Sym) else s
        shape.append(elem(c) if c is not None else T._setk(s, "i"))
    if all(elem(v) == 0 if not isinstance(v, Sym) else False
           for p in pw for v in p):
        return a
    cv = cast(k.get("constant_values", 0), a.sd)
    r = LArr(shape, None, a.sd)
    if mode == "constant":
        def f(i):
            c = T.band(*[T.band(T.lift(x) >= p[0], T.lift(x) < T.lift(
                p[0]) + d) for x, p, d in zip(i, pw, a.shape)])
            return T.ite(c, a.at(tuple(T.lift(x) - p[0] for x, p in
                                       zip(i, pw))), cv)
    elif mode == "edge":
        def f(i):
            return a.at(tuple(T._setk(T.lift(T.min2(T.max2(
                T.lift(x) - p[0], 0), T.lift(d) - 1)), "i")
                for x, p, d in zip(i, pw, a.shape)))
    else:
        def f(i):
            unsup("pad mode %s on symbolic size" % mode)
    r.f = f
    r.pad = (a, tuple((elem(p[0]), elem(p[1])) for p in pw), mode,
             tuple(sorted((n, repr(v)) for n, v in k.items())))
    if a.ndim == 2:
        r.desc = pad_desc(a.describe(), r.pad, a)
    return r


class PadWin:
    """description of a padded image"""
    _is_desc = True

    def __init__(self, base, pads, mode, extra, h, w):
        self.base, self.pads, self.mode, self.extra = base, pads, mode, extra
        self.h, self.w = h, w
        b = base
        from .models import Win
        bk = (b.base(), T.lift(b.oy).key(), T.lift(b.ox).key(),
              T.lift(b.h).key(), T.lift(b.w).key()) \
            if isinstance(b, Win) else b
        self.bkey = bk
        self.key = (bk, tuple(T.lift(v).key() for p in pads for v in p),
                    mode, extra)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, PadWin) and o.key == self.key


def pad_desc(d, pad, a):
    (t, b), (l, r) = pad[1][:2]
    return PadWin(d, pad[1][:2], pad[2], pad[3], T.lift(a.shape[0]) + t + b,
                  T.lift(a.shape[1]) + l + r)


def _getpad(a, c):
    """channel c of a padded colour image keeps its description"""
    pad = getattr(a, "pad", None)
    r = a[:, :, c]
    if pad is not None and all(
            not isinstance(v, Sym) and v == 0 for v in pad[1][2]):
        r.desc = pad_desc(pad[0][:, :, c].describe(), pad, pad[0])
    return r


_old_get = LArr.__getitem__


def _get(self, idx):
    r = _old_get(self, idx)
    pad = getattr(self, "pad", None)
    if pad is not None and isinstance(r, LArr) and r.ndim == 2 and \
            self.ndim == 3 and isinstance(idx, tuple) and len(idx) in (2, 3):
        full = [c for c in idx if c is not Ellipsis]
        if len(full) in (1, 3) and not isinstance(full[-1], slice) and all(
                isinstance(c, slice) and c == slice(None)
                for c in full[:-1]) and all(
                not isinstance(v, Sym) and v == 0 for v in pad[1][2]):
            r.desc = pad_desc(pad[0][:, :, full[-1]].describe(), pad, pad[0])
    return r


LArr.__getitem__ = _get

def _f_polyval(p, x, *a, **k):
    if a or k or not isinstance(x, LArr):
        unsup("polyval on symbolic size")
    r = full(x.shape, Fraction(0), np.dtype("f8"))
    for c in list(p):
        r = r * x + c
    return r


def _f_broadcast_to(a, shape, **k):
    a = lift(a)
    sh = bshape([a.shape, tuple(shape)])
    return LArr(sh, bc(a, sh), a.sd)


def _f_broadcast_arrays(*xs, **k):
    xs = [lift(x) for x in xs]
    sh = bshape([x.shape for x in xs])
    return tuple(LArr(sh, bc(x, sh), x.sd) for x in xs)


def _f_outer(a, b, **k):
    a, b = lift(a), lift(b)
    if a.ndim != 1 or b.ndim != 1:
        unsup("outer of matrices")
    return a[:, None] * b[None, :]


def _f_dstack(parts, **k):
    parts = [lift(p) for p in parts]
    if not all(p.ndim == 2 for p in parts):
        unsup("dstack on symbolic size")
    return stack(parts, 2)


def _f_column_stack(parts, **k):
    parts = [lift(p) for p in parts]
    if not all(p.ndim == 1 for p in parts):
        unsup("column_stack on symbolic size")
    return stack(parts, 1)


def _f_flip(a, axis=None):
    a = lift(a)
    ax = range(a.ndim) if axis is None else \
        [x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,))]
    return a[tuple(slice(None, None, -1) if k in ax else slice(None)
                   for k in range(a.ndim))]


_F = {
    np.polyval: _f_polyval,
    np.polynomial.polynomial.polyval: lambda x, c, *a, **k: _f_polyval(
        list(c)[::-1], x, *a, **k), np.broadcast_to: _f_broadcast_to,
    np.broadcast_arrays: _f_broadcast_arrays, np.outer: _f_outer,
    np.dstack: _f_dstack, np.column_stack: _f_column_stack,
    np.fliplr: lambda a: _f_flip(a, 1), np.flipud: lambda a: _f_flip(a, 0),
    np.sum: _f_sum, np.mean: _f_mean, np.min: _f_min("min"),
    np.amin: _f_min("min"), np.max: _f_min("max"), np.amax: _f_min("max"),
    np.clip: _f_clip, np.meshgrid: _f_meshgrid, np.round: _f_round,
    np.around: _f_round, np.where: _f_where, np.vstack: _f_vstack,
    np.stack: _f_stack, np.moveaxis: _f_moveaxis,
    np.transpose: _f_transpose, np.pad: _f_pad,
    np.reshape: lambda a, shape=None, newshape=None, **k: reshape(
        lift(a), tuple(shape) if isinstance(shape, (tuple, list)) else
        (shape,)),
    np.ravel: lambda a, **k: a.flatten(),
    np.copy: lambda a, **k: a.copy(), np.shape: lambda a: a.shape,
    np.ndim: lambda a: a.ndim, np.size: lambda a, axis=None: a.size
    if axis is None else a.shape[axis],
    np.zeros_like: lambda a, dtype=None, **k: full(
        a.shape, cast(0, dt(dtype) or a.sd), dt(dtype) or a.sd),
    np.ones_like: lambda a, dtype=None, **k: full(
        a.shape, cast(1, dt(dtype) or a.sd), dt(dtype) or a.sd),
    np.full_like: lambda a, v, dtype=None, **k: full(
        a.shape, cast(v, dt(dtype) or a.sd), dt(dtype) or a.sd),
    np.iscomplexobj: lambda a: False,
    np.array_split: None, np.isscalar: lambda a: False,
    np.squeeze: lambda a, **k: unsup("squeeze"),
    np.expand_dims: lambda a, axis: a[tuple(
        [slice(None)] * (axis if axis >= 0 else a.ndim + 1 + axis) +
        [None])],
    np.swapaxes: lambda a, x, y: _perm(a, [
        (y % a.ndim if k == x % a.ndim else x % a.ndim if k == y % a.ndim
         else k) for k in range(a.ndim)]),
    np.isin: lambda x, a, **k: x in a,
    np.flip: _f_flip,
}
_F = {k: v for k, v in _F.items() if v is not None}


# ---------------------------------------------------------------- resampling
def map_coordinates(inp, co, output, order, mode, cval, prefilter):
    from .models import sample
    inp = lift(inp) if not isinstance(inp, LArr) else inp
    if output is not None:
        unsup("map_coordinates with output")
    srcs = getattr(co, "srcs", None)
    if isinstance(co, LArr):
        n = co.shape[0]
        if not isinstance(n, int) or n != 2:
            if n != inp.ndim:
                raise RuntimeError("invalid shape for coordinate array")
        parts = getattr(co, "parts", (0, None))[1] or [co[0], co[1]]
    else:
        parts = [lift(c) for c in co]
    if len(parts) != inp.ndim:
        raise RuntimeError("invalid shape for coordinate array")
    if inp.ndim != 2:
        unsup("map_coordinates on %d dimensions" % inp.ndim)
    y, x = parts
    kd = "i" if inp.sd.kind in "iu" else "f"
    ex = ()
    if mode.endswith("constant") and elem(cval) != 0:
        ex = ("cval", elem(cval))
    if not prefilter and order > 1:
        ex += ("noprefilter",)
    d = inp.describe()
    if y.src is not None and x.src is not None and len(y.shape) == len(
            x.shape):
        ys, xs = y.src, x.src
        sh = bshape([ys.shape, xs.shape])
        fy, fx = bc(ys, sh), bc(xs, sh)
        res = LArr(sh, lambda i: sample(d, fy(i), fx(i), order, mode, ex,
                                        "nd", kd), inp.sd)
        return LArr(y.shape, _flat_f(res, y.shape), inp.sd, src=res)
    sh = bshape([y.shape, x.shape])
    fy, fx = bc(y, sh), bc(x, sh)
    return LArr(sh, lambda i: sample(d, fy(i), fx(i), order, mode, ex, "nd",
                                     kd), inp.sd)


def remap(src, map1, map2, interp, border, bval):
    from .models import sample
    src = lift(src)
    m1, m2 = lift(map1), lift(map2)
    if m1.sd != np.dtype("f4") or m2.sd != np.dtype("f4"):
        raise TypeError("remap needs float32 maps")
    kd = "i" if src.sd.kind in "iu" else "f"
    sh = bshape([m1.shape, m2.shape])
    ex = () if elem(bval) == 0 else (repr(bval),)
    if src.ndim == 2:
        d = src.describe()
        return LArr(sh, lambda i: sample(d, m2.at(i), m1.at(i), interp,
                                         border, ex, "cv", kd), src.sd)
    ds = [src[:, :, c].describe() for c in range(operator.index(
        src.shape[2]))]

    def f(i):
        c = i[2]
        if isinstance(c, Sym) and c.const() is None:
            c = c.concretize()
        return sample(ds[int(c)], m2.at(i[:2]), m1.at(i[:2]), interp, border,
                      ex, "cv", kd)
    return LArr(sh + (src.shape[2],), f, src.sd)


def image(tag, shape, d, pos=False):
    isint = d.kind in "iu"

    def f(i):
        return T.uf("pix:%s" % (tag,), tuple(i), is_int=isint, nonneg=pos,
                    k="i" if isint else "f")
    return LArr(shape, f, d, base=(tag, [("ax", k, 0)
                                         for k in range(len(shape))],
                                   tuple(shape)))
