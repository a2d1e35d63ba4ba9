"""C21 profiles along tilted lines."""
from .common import *


def swap(d, a, b):
    return (a, b) if d == "horizontal" else (b, a)


def reach(E, d, n, index, t):
    """coordinate across where the line ends, n long, tan t"""
    return index - n * t if d == "horizontal" else index + n * t


def tan(E, a):
    return E.tan(a * E.pi / 180)


def profile(E):
    d, n, angle, form, top = E.cfg
    line = E.load("line")
    q = E.q
    m = E.big_int("M", 3, top)          # extent across the lines
    if angle is None:
        a = E.real("angle", -40, 40)
    else:
        a = q(angle)
    h, w = swap(d, m, n)
    img = E.image("m", (h, w), "f8")
    ix = E.int("index", 0, top) if form == "int" else \
        E.real("index", 0, top)
    rad = a * E.pi / 180
    c, s = E.cos(rad), E.sin(rad)
    end = reach(E, d, n, ix, tan(E, a))
    E.assume(E.And(end >= 0, end <= m - 1, ix <= m - 1))
    if form == "real":     # between pixels: away from the border
        E.assume(E.And(end >= 1, end <= m - 2, ix >= 1, ix <= m - 2))
    xs, ys, pr = line.get_tilted_profile(img, ix, a, d)
    along, across = (xs, ys) if d == "horizontal" else (ys, xs)
    for v in (xs, ys, pr):
        E.shape_is(v, (n,), "one value per column (row)")
    step = E.floor(n / c) / q(n - 1)
    if not E.sym and abs(n / c - round(n / c)) < 1e-6:
        return
    sg = -s if d == "horizontal" else s
    ref = []
    for k in range(n):
        u = E.clip(k * step * c, 0, n - 1)
        v = E.clip(ix + k * step * sg, 0, m - 1)
        E.eq(along[k], u, "position along")
        E.eq(across[k], v, "position across")
        ref.append((v, u) if d == "horizontal" else (u, v))
    crop = None
    if not E.sym:
        crop = [(min(p[i] for p in ref), max(p[i] for p in ref))
                for i in (0, 1)]
    for k in range(n):
        y, x = ref[k]
        E.sample_eq(pr[k], img, y, x, 3, "nearest", "intensity",
                    crop=crop or ())


def refuse(E):
    d, n, angle = E.cfg
    line = E.load("line")
    q = E.q
    m = E.big_int("M", 3, 200)
    a = E.real("angle", -60, 60) if angle is None else q(angle)
    h, w = swap(d, m, n)
    img = E.image("m", (h, w), "f8")
    ix = E.int("index", -50, 300)
    out = E.call(line.get_tilted_profile, img, ix, a, d)
    end = reach(E, d, n, ix, tan(E, a))
    if E.And(end >= 0, end <= m - 1, ix >= 0, ix <= m - 1):
        E.check(out.ok, "a line inside the image is accepted")
    elif E.Or(end <= -1, end >= m, ix < 0, ix > m - 1):
        exc_is(E, out, (ValueError,), "a line leaving the image is refused")


def invalid(E):
    kind = E.cfg
    line = E.load("line")
    if kind == "3d":
        img = E.image("m", (4, 5, 3), "f8")
        out = E.call(line.get_tilted_profile, img, 2, E.real("a", -1, 1),
                     "horizontal")
    else:
        img = E.image("m", (6, 6), "f8")
        out = E.call(line.get_tilted_profile, img, E.int("i", 0, 5),
                     90 if kind.endswith("+") else -90, kind[:-1])
    exc_is(E, out, (ValueError,), "refused with ValueError")


D = ("horizontal", "vertical")
HARNESSES = [
    H("profile", profile,
      quick=[(d, 5, a, f, t) for d in D for a, f, t in (
          (0, "int", 70000), (None, "int", 12), (None, "real", 9),
          ("10", "int", 70000), ("-14", "real", 70000))],
      thorough=[(d, 8, a, f, t) for d in D for a, f, t in (
          (0, "real", 70000), (None, "int", 12), (None, "real", 40),
          ("10", "int", 70000), ("-14", "real", 70000))],
      budget=120, bounds="5-8 samples along, up to 70000 pixels across"),
    H("refuse", refuse, quick=[(d, 6, a) for d in D
                               for a in (None, 0, 12, -20)] +
      [(d, 25, a) for d in D for a in ("2.5", "-2.5")],
      bounds="6 samples along (25 for angles of 2.5 degrees), up to 200 pixels across, angle -60..60"),
    H("invalid", invalid, quick=["3d", "horizontal+", "horizontal-",
                                 "vertical+", "vertical-"], bounds="-"),
]
ASSUMPTIONS = ["real arithmetic stands for float rounding",
               "map_coordinates is an opaque function of the image and the "
               "position; for cubic interpolation a window of the image "
               "that contains the line stands for the image"]
