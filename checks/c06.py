"""C06 forward image unwarping writes every input pixel at its mapped place."""
from .common import *


def scatter(E):
    h, w, n, dtype, lim = E.cfg
    post = E.load("post")
    m = E.image("m", (h, w), dtype)
    xc, yc = E.real("xc", -3, 5), E.real("yc", -3, 5)
    cs = [E.real("c%d" % k, -lim, lim) for k in range(n)]
    keep, kc = E.snap(m), E.snap(cs)
    out = post.unwarp_image_forward(m, xc, yc, cs)
    E.shape_is(out, (h, w), "same shape")
    E.check(str(out.dtype) == str(m.dtype), "same type")
    to = {}
    for i in range(h):
        for j in range(w):
            x, y = radial(E, j, i, xc, yc, cs)
            x, y = E.clip(x, 0, w - 1), E.clip(y, 0, h - 1)
            E.assume(E.And(*[E.Or(v < k + E.q("0.499"), v > k + E.q("0.501"))
                             for v, s in ((x, w), (y, h))
                             for k in range(s - 1)]))
            to[i, j] = (y, x)

    def hits(p, q):
        y, x = to[p]
        return E.And(y > q[0] - E.q("0.5"), y < q[0] + E.q("0.5"),
                     x > q[1] - E.q("0.5"), x < q[1] + E.q("0.5"))
    for q in to:
        v = out[q]
        E.check(E.Or(E.And(v == 0, *[E.Not(hits(p, q)) for p in to]),
                     *[E.And(hits(p, q), v == m[p]) for p in to]),
                "a pixel is empty or holds a value mapped to it")
    E.unchanged(m, keep, "input untouched")
    E.unchanged(cs, kc, "coefficients untouched")


HARNESSES = [
    H("scatter", scatter,
      quick=[(2, 2, 1, "f4", 2), (1, 3, 2, "f4", 2), (2, 3, 1, "u1", 2),
             (3, 1, 2, "f4", 2), (3, 3, 3, "f4", 2)],
      thorough=[(2, 2, 1, "f4", 2), (2, 2, 2, "f4", 2), (1, 4, 2, "f4", 2),
                (2, 3, 1, "u1", 2), (3, 2, 1, "f4", 2), (3, 3, 1, "f4", 2),
                (4, 4, 2, "f4", 2), (5, 5, 3, "f4", 2), (3, 6, 4, "u2", 1),
                (4, 1, 2, "f4", 2), (4, 1, 3, "f4", 1)],
      budget=100,
      bounds="images up to 3x3 (5x5 in thorough), all positions of the centre in "
             "[-3,5]^2, 1-4 coefficients"),
]
ASSUMPTIONS = ["real arithmetic stands for float rounding; mapped positions "
               "within 0.001 of a rounding boundary are left out"]
