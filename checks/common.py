"""Helpers shared by the harnesses (they run on both engines)."""
from symx.harness import H     # noqa


def poly(E, coefs, r):
    """the radial factor sum_k coefs[k] * r**k"""
    s = 0
    for k, c in enumerate(coefs):
        s = s + c * (r ** k if k else 1)
    return s


def coefs(E, n, name="c", lo=-2, hi=2):
    return [E.real("%s%d" % (name, k), lo, hi) for k in range(n)]


def radial(E, x, y, xc, yc, cs):
    """model applied to the point (x, y): returns (x', y')"""
    dx, dy = x - xc, y - yc
    r = E.sqrt(dx * dx + dy * dy)
    f = poly(E, cs, r)
    return xc + f * dx, yc + f * dy


def backward_source(E, i, j, h, w, xc, yc, cs):
    """where pixel (row i, column j) of the corrected image comes from"""
    xd, yd = radial(E, j, i, xc, yc, cs)
    return E.clip(yd, 0, h - 1), E.clip(xd, 0, w - 1)


def sizes(E, name="", top=70000, thin=40, mid=6000):
    h = E.big_int("H" + name, 2, top)
    w = E.big_int("W" + name, 2, top)
    E.assume(E.Or(E.And(h <= mid, w <= mid), h <= thin, w <= thin))
    return h, w


def exc_is(E, out, types, label):
    E.check(out.is_a(*types), label)


def line_fit(E, u, v):
    """least-squares line v = a*u + b"""
    n = len(u)
    um, vm = sum(u) / E.q(n), sum(v) / E.q(n)
    den = sum((p - um) * (p - um) for p in u)
    a = sum((p - um) * (q - vm) for p, q in zip(u, v)) / den
    return a, vm - a * um


def grid(E, hor, ver, hx, vy):
    """lines from functions: hor[i](x) -> y at the abscissas hx, ver[j](y) ->
    x at the ordinates vy; arrays of (y, x)"""
    return ([E.arr([[f(x), x] for x in hx]) for f in hor],
            [E.arr([[y, g(y)] for y in vy]) for g in ver])


def parab(a, b, c):
    return lambda t: a * t * t + b * t + c


def linf(a, b):
    return lambda t: a * t + b


def lsq_is(E, coef, rows, rhs, label, tol="1e-3"):
    """coef is the least-squares solution of rows * c = rhs, where every row
    is 1, s, s**2, ..."""
    n = len(rows[0])
    E.check(len(coef) == n, label + ": number of coefficients")
    if not E.sym:
        import numpy as np
        A = np.array(rows, float)
        B = np.array(rhs, float)
        s = np.max(np.abs(A), axis=0)
        s[s == 0] = 1
        ref = np.linalg.lstsq(A / s, B, rcond=None)[0]
        sv = np.linalg.svd(A / s, compute_uv=False)
        if len(sv) < n or sv[-1] < 1e-7 * sv[0]:
            return E.check(True, label)      # not determined by the data
        raw = np.linalg.svd(A, compute_uv=False)
        if raw[-1] < (1e-12 if n > 5 else 2e-15) * raw[0]:
            return E.check(True, label)      # lost in rounding
        d = (A / s) @ ref - A @ np.asarray(coef, float)
        if n <= 3:
            tol = "2e-5"
        return E.check(bool(np.max(np.abs(d)) < float(E.q(tol)) * max(
            1.0, float(np.max(np.abs(B))))), label)
    rc = None
    for kind, r in E.records:
        if kind == "lstsq" and len(r["x"]) == n and all(
                E.ident(a, b) for a, b in zip(r["x"], coef)):
            rc = r
    if rc is None:
        return E.unsupported("no least-squares call gave the result")
    E.check(len(rc["A"]) == len(rows), label + ": number of equations")
    for i, (ra, rb) in enumerate(zip(rows, rhs)):
        for k in range(min(n, 2)):
            E.eq(rc["A"][i][k], ra[k], "%s [%d,%d]" % (label, i, k))
        for k in range(2, n):
            # equal to ra[k] = ra[1] ** k by the line above
            E.eq(rc["A"][i][k], rc["A"][i][1] ** k, label)
        E.eq(rc["B"][i], rb, "%s (B%d)" % (label, i))
