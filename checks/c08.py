"""C08 perspective coefficients send each source point to its target."""
from .common import *

BASE = [(0, 0), (0, 100), (80, 0), (80, 100), (40, 50), (20, 70)]
BASE += [(15 * i + 4, 18 * j + 7) for i in range(6) for j in range(6)]


def quad(E, name, n, free, off=0, size=1):
    """n points near the corners of a rectangle: (y, x)"""
    p = []
    for k in range(n):
        y, x = BASE[k][0] * size + off, BASE[k][1] * size + off
        if k in free:
            y = y + E.real("%sy%d" % (name, k), -15, 15)
            x = x + E.real("%sx%d" % (name, k), -15, 15)
        else:
            y, x = y + E.q((k * 7) % 5), x + E.q((k * 3) % 4)
        p.append((y, x))
    return p


def apply(c, x, y):
    den = c[6] * x + c[7] * y + 1
    return c[0] * x + c[1] * y + c[2], c[3] * x + c[4] * y + c[5], den


def four(E):
    """four pairs: exact mapping, in both directions"""
    mapping, fs, ft, kind = E.cfg[:4]
    proc = E.load("proc")
    src = quad(E, "s", 4, fs, *E.cfg[4:])
    tgt = quad(E, "t", 4, ft, *E.cfg[4:])
    mk = (lambda p: E.arr([list(q) for q in p])) if kind == "array" else \
        (lambda p: [list(q) for q in p])
    a, b = mk(src), mk(tgt)
    ka, kb = E.snap(a), E.snap(b)
    c = proc.calc_perspective_coefficients(a, b) if mapping is None else \
        proc.calc_perspective_coefficients(a, b, mapping=mapping)
    E.check(len(c) == 8, "eight coefficients")
    frm, to = (src, tgt) if mapping == "forward" else (tgt, src)
    for (y, x), (yy, xx) in zip(frm, to):
        nx, ny, den = apply(c, x, y)
        E.eq(nx, xx * den, "x of the mapped point", E.q("0.01"))
        E.eq(ny, yy * den, "y of the mapped point", E.q("0.01"))
    E.unchanged([a, b], [ka, kb], "points untouched")


def many(E):
    """more pairs: least-squares fit"""
    mapping, n, fs, ft = E.cfg
    proc = E.load("proc")
    src = quad(E, "s", n, fs)
    tgt = quad(E, "t", n, ft)
    c = proc.calc_perspective_coefficients(
        E.arr([list(p) for p in src]), E.arr([list(p) for p in tgt]),
        mapping=mapping)
    E.check(len(c) == 8, "eight coefficients")
    frm, to = (src, tgt) if mapping == "forward" else (tgt, src)
    g = [0] * 8
    for (y, x), (yy, xx) in zip(frm, to):
        rx = c[0] * x + c[1] * y + c[2] - xx * (c[6] * x + c[7] * y) - xx
        ry = c[3] * x + c[4] * y + c[5] - yy * (c[6] * x + c[7] * y) - yy
        for k, (ax, ay) in enumerate([
                (x, 0), (y, 0), (1, 0), (0, x), (0, y), (0, 1),
                (-xx * x, -yy * x), (-xx * y, -yy * y)]):
            g[k] = g[k] + ax * rx + ay * ry
    for k in range(8):
        E.eq(g[k] / 1000, 0, "least-squares solution", E.q("0.01"))


def roundtrip(E):
    """backward coefficients undo what the forward ones do (as systems)"""
    fs, ft = E.cfg
    proc = E.load("proc")
    post = E.load("post")
    src = quad(E, "s", 4, fs)
    tgt = quad(E, "t", 4, ft)
    a = E.arr([list(p) for p in src])
    b = E.arr([list(p) for p in tgt])
    cf = proc.calc_perspective_coefficients(a, b, mapping="forward")
    cb = proc.calc_perspective_coefficients(b, a, mapping="backward")
    for k in range(8):
        E.eq(cf[k], cb[k], "backward of swapped points is forward")
    for c, p, q in ((cf, src, tgt),
                    (proc.calc_perspective_coefficients(a, b), tgt, src)):
        for y, x in p:
            den = c[6] * x + c[7] * y + 1
            E.assume(E.Or(den > E.q("0.01"), den < -E.q("0.01")))
        out = post.correct_perspective_line([E.arr([list(v) for v in p])],
                                            c)
        for k, (y, x) in enumerate(q):
            E.eq(out[0][k, 0], y, "corrected points are the targets (y)",
                 E.q("0.01"))
            E.eq(out[0][k, 1], x, "corrected points are the targets (x)",
                 E.q("0.01"))


ALL = (0, 1, 2, 3)
HARNESSES = [
    H("four", four,
      quick=[("forward", ALL, ALL, "array"), ("backward", ALL, ALL, "list"),
             (None, ALL, ALL, "array"),
             ("forward", ALL, ALL, "array", 1000, 1),
             ("backward", ALL, ALL, "list", 4000, 1),
             (None, ALL, ALL, "array", 200, 20)],
      thorough=[(m, ALL, ALL, k) for m in (None, "forward", "backward")
                for k in ("array", "list")],
      bounds="all 8 points free within 15 of a rectangle's corners; "
             "rectangles at the origin and up to 4000 pixels away"),
    H("many", many,
      quick=[("forward", 5, (1, 4), (0, 4)), ("backward", 6, (5,), (4,)),
             ("forward", 40, (38,), (39,)), ("backward", 31, (0,), (30,))],
      thorough=[(m, n, tuple(range(n)), tuple(range(n)))
                for m in ("forward", "backward") for n in (5, 6)] +
      [("forward", 5, (1, 4), (0, 4)), ("backward", 6, (5,), (4,))],
      bounds="5, 6, 31 or 40 pairs"),
    H("roundtrip", roundtrip, quick=[(ALL, ALL)], thorough=[(ALL, ALL)],
      budget=60, bounds="as four"),
]
ASSUMPTIONS = ["real arithmetic stands for float rounding",
               "numpy.linalg.lstsq solves the normal equations (the system "
               "itself when square)"]
