"""C28 plots show the points where they are; find_file lists all matches."""
from .common import *


def lines(E):
    lens, h, w = E.cfg
    d = E.fs_dir()
    losa = E.load("losa")
    pts = [[[E.real("y%d_%d" % (i, j), 0, h), E.real("x%d_%d" % (i, j), 0, w)]
            for j in range(n)] for i, n in enumerate(lens)]
    given = [E.arr(p) for p in pts]
    keep = E.snap(given)
    p = losa.save_plot_image(d + "/plot.png", given, h, w)
    _drawn(E, p, [q for ln in pts for q in ln], h, w)
    E.unchanged(given, keep, "lines untouched")


def _drawn(E, p, pts, h, w):
    got, lim = E.fs_get_plot(str(p))
    E.check(lim is not None, "axis limits set")
    size = E.fs_plot_size(str(p))
    if size is not None:
        for a, b in zip(size, (w, h)):
            E.check(E.abs(a - b) <= 1, "size of the picture")
    for a, b in zip(lim, (0, w, 0, h)):
        E.eq(a, b, "axis limits are the image borders")
    E.check(len(got) == len(pts), "every point is drawn once")
    for (x, y), (py, px) in zip(got, pts):
        E.eq(x, px, "abscissa of a point")
        E.eq(y, h - py, "ordinate of a point, downwards")


def points(E):
    n, h, w, form = E.cfg
    d = E.fs_dir()
    losa = E.load("losa")
    pts = [[E.real("y%d" % i, 0, h), E.real("x%d" % i, 0, w)]
           for i in range(n)]
    given = E.arr(pts) if form == "arr" else pts
    keep = E.snap(given)
    p = losa.save_plot_points(d + "/plot.png", given, h, w, color="red")
    _drawn(E, p, pts, h, w)
    E.unchanged(given, keep, "points untouched")


def residual(E):
    n, = E.cfg
    d = E.fs_dir()
    losa = E.load("losa")
    rows = [[E.real("r%d" % i, 0, 3000), E.real("e%d" % i, -50, 50)]
            for i in range(n)]
    given = E.arr(rows)
    keep = E.snap(given)
    p = losa.save_residual_plot(d + "/plot.png", given, 400, 500)
    got, _ = E.fs_get_plot(str(p))
    E.check(len(got) == n, "every residual is drawn once")
    for (x, y), (r, e) in zip(got, rows):
        E.eq(x, r, "radius")
        E.eq(y, e, "residual")
    E.unchanged(given, keep, "data untouched")


def find(E):
    names, pat, match = E.cfg
    d = E.fs_dir()
    losa = E.load("losa")
    there = []
    for k, n in enumerate(names):
        e = E.bool("e%d" % k)
        E.fs_file(d + "/" + n, e)
        there.append(e)
    r = E.call(losa.find_file, d + "/" + pat)
    want = sorted(d + "/" + n for n, e in zip(names, there)
                  if n in match and e)
    if not want:
        E.check(r.is_a(FileNotFoundError), "no match: reported")
        return
    E.check(r.ok, "matches found")
    E.check([str(x) for x in r.value] == want, "all matches, in order")


def deep(E):
    """files of folders inside do not match"""
    d = E.fs_dir()
    losa = E.load("losa")
    E.fs_folder(d + "/sub", True)
    E.fs_file(d + "/sub/b.tif", E.bool("e"))
    E.fs_file(d + "/a.tif", True)
    r = E.call(losa.find_file, d + "/" + E.cfg)
    E.check(r.ok, "matches found")
    E.check([str(x) for x in r.value] == [d + "/a.tif"], "all matches")


ODD = ("a.tif", "a-1.tif", "a.png", "B.tif", "a.tiff")
FILES = ("img_002.tif", "img_010.tif", "img_001.png", "im_003.tif",
         "img_1.tif")
HARNESSES = [
    H("lines", lines, quick=[((2, 3), 100, 200), ((1,), 60, 50)],
      bounds="up to 2 lines of up to 3 points"),
    H("points", points, quick=[(2, 100, 150, "arr"), (3, 60, 50, "list"),
                               (1, 200, 100, "arr")],
      bounds="up to 3 points"),
    H("residual", residual, quick=[(3,), (1,)], bounds="up to 3 residuals"),
    H("find", find, quick=[
        (FILES, "img*.tif", ("img_002.tif", "img_010.tif", "img_1.tif")),
        (FILES, "img_0*", ("img_002.tif", "img_010.tif", "img_001.png")),
        (FILES, "img_002.tif", ("img_002.tif",)),
        (FILES, "*", FILES), (FILES, "*.jpg", ()), (ODD, "*", ODD),
        (ODD, "a*.tif", ("a.tif", "a-1.tif")), (ODD, "a.*", (
            "a.tif", "a.png", "a.tiff")), (ODD, "?.tif", ("a.tif", "B.tif"))],
      bounds="5 files, each present or absent"),
    H("deep", deep, quick=["*.tif", "[ab].tif"], bounds="one folder"),
]
ASSUMPTIONS = ["matplotlib draws the coordinates it is given"]
