"""C14 converting a model gives the inverse radial model."""
from .common import *


def lstsq_record(E, out):
    rc = [r for k, r in E.records if k == "lstsq" and
          len(r["x"]) == len(out) and
          all(E.ident(a, b) for a, b in zip(r["x"], out))]
    if not rc:
        E.unsupported("no least-squares call gave the result")
    return rc[-1]


def model(E, k):
    q = E.q
    rng = [("0.8", "1.25"), ("0", "1e-4"), ("0", "1e-7"), ("0", "1e-10"),
           ("0", "1e-14")]
    if E.bool("pincushion"):
        rng = [("0.8", "1.25"), ("-7e-5", "0"), ("-2.5e-8", "0"),
               ("-1e-11", "0"), ("-5e-15", "0")]
    return [E.real("c%d" % i, q(rng[i][0]), q(rng[i][1])) for i in range(k)]


def wild(E, k):
    q = E.q
    rng = ["2", "2e-3", "1e-6", "1e-9", "1e-12"]
    return [E.real("c%d" % i, -q(rng[i]), q(rng[i])) for i in range(k)]


def conv(E):
    """the least-squares inverse at the given reference points"""
    mapping, k, n, kind = E.cfg
    proc = E.load("proc")
    cs = wild(E, k)
    pts = [(E.real("y%d" % i, -1000, 1000), E.real("x%d" % i, -1000, 1000))
           for i in range(n)]
    rs = [E.sqrt(x * x + y * y) for y, x in pts]
    if not E.sym and n >= k and len(set(round(r) for r in rs)) < k:
        E.assume(False)
    fs = [poly(E, cs, rr) for rr in rs]
    for f in fs:
        E.assume(E.Or(f > E.q("0.1"), f < -E.q("0.1")))
    if E.sym:
        E.state["abstract_lstsq"] = True
    ref = [E.arr(list(p)) for p in pts]
    ref = E.arr([list(p) for p in pts]) if kind == "array" else ref
    fact = E.arr(cs) if kind == "array" else list(cs)
    keep = E.snap([fact, ref])
    kw = {} if mapping is None else {"mapping": mapping}
    r = E.call(proc.transform_coef_backward_and_forward, fact,
               ref_points=ref, **kw)
    if n < k:
        E.check(r.is_a(ValueError), "too few points are refused")
        return
    E.check(r.ok, "enough points are accepted")
    if not r.ok:
        return
    rows, rhs = [], []
    for rr, f in zip(rs, fs):
        rows.append([(f * rr) ** e if e else 1 for e in range(k)])
        rhs.append(1 / f)
    lsq_is(E, r.value, rows, rhs, "inverse at the reference points")
    E.unchanged([fact, ref], keep, "arguments untouched")


def default(E):
    """generated points: every equation states an inverse pair of radii"""
    mapping, k = E.cfg
    proc = E.load("proc")
    cs = model(E, k)
    if E.sym:
        E.state["abstract_lstsq"] = True
    out = proc.transform_coef_backward_and_forward(list(cs), mapping=mapping)
    E.check(len(out) == k, "number of coefficients")
    if not E.sym:
        # the converted model undoes the given one over the image
        if k == 1:
            E.eq(out[0] * cs[0], 1, "inverse scale")
        else:
            import numpy as np
            c = np.array([float(v) for v in cs])

            def err(o):
                r = np.linspace(0, 1000, 201)
                t = r * np.polyval(c[::-1], r)
                return np.max(np.abs(t * np.polyval(o[::-1], t) - r))
            r = np.linspace(0, 1400, 200)
            f = np.polyval(c[::-1], r)
            s = np.array([(f * r / 1000) ** e for e in range(k)]).T
            o = np.linalg.lstsq(s, 1 / f, rcond=None)[0] / (
                1000.0 ** np.arange(k))
            E.check(bool(err(np.array(out, float)) <= 4 * err(o) + 0.1),
                    "round trip over the image")
        return
    rc = lstsq_record(E, out)
    E.check(len(rc["A"]) >= 100, "enough equations")
    if k > 1:
        E.check(E.Or(*[row[1] * b >= 900 for row, b in
                       zip(rc["A"], rc["B"])]), "covers an image")
    for row, b in zip(rc["A"], rc["B"]):
        E.eq(row[0], 1, "constant term")
        if k > 1:
            E.check(row[1] >= 0, "radius")
            r0 = row[1] * b
            E.eq(poly(E, cs, r0) * b, 1, "inverse pair of radii")
            for e in range(2, k):
                E.eq(row[e], row[1] ** e, "powers of the radius")
        else:
            E.eq(b * cs[0], 1, "inverse scale")


def exact(E):
    """as many points as coefficients: the round trip is exact there"""
    mapping, k = E.cfg
    proc = E.load("proc")
    cs = model(E, k)
    pts = [(0, 0), (300, -400), (60, 80)][:k] if k > 1 else [(3, 4)]
    pts = sorted(pts)
    out = proc.transform_coef_backward_and_forward(
        list(cs), mapping=mapping, ref_points=[list(p) for p in pts])
    for y, x in pts:
        r = E.sqrt(E.q(x * x + y * y))
        s = poly(E, cs, r) * r
        E.eq(poly(E, [v for v in out], s) * s, r, "round trip", E.q("1e-2"))


HARNESSES = [
    H("conv", conv,
      quick=[(None, 1, 1, "list"), ("backward", 2, 2, "array"),
             ("forward", 2, 3, "list"), ("backward", 3, 2, "list"),
             ("forward", 3, 4, "array"), ("forward", 4, 3, "list"),
             ("backward", 5, 6, "list"), ("forward", 5, 5, "list"),
             ("backward", 2, 1, "list"), ("forward", 5, 4, "array")],
      thorough=[(m, k, n, t) for m in (None, "backward", "forward")
                for k in (1, 2, 3, 4, 5) for n in (k - 1, k, k + 1, k + 4)
                for t in ("list", "array") if n > 0], budget=60,
      bounds="1-5 coefficients, 1-9 reference points with free positions"),
    H("default", default,
      quick=[("backward", 1), ("forward", 1), ("backward", 2),
             ("forward", 3)],
      thorough=[(m, k) for m in ("backward", "forward")
                for k in (1, 2, 3, 4, 5)], budget=120,
      bounds="generated reference points, 1-5 free coefficients"),
    H("exact", exact,
      quick=[("backward", 1), ("forward", 2), ("backward", 2)],
      thorough=[(m, k) for m in ("backward", "forward") for k in (1, 2, 3)],
      budget=60, bounds="1-3 coefficients, as many points"),
]
ASSUMPTIONS = ["real arithmetic stands for float rounding",
               "numpy.linalg.lstsq returns the exact least-squares solution"]
