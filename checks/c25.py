"""C25 saving never destroys what it was not told to overwrite."""
from .common import *


def _save(E, losa, kind, path, over):
    """-> returned path (None if the function does not return it)"""
    kw = {} if over is None else {"overwrite": over}
    img = E.arr([[1, 2], [3, 4]], "u1")
    if kind == "image":
        return losa.save_image(path, img, **kw)
    if kind == "hdf":
        return losa.save_hdf_file(path, E.arr([[1.5, 2], [3, 4]]), **kw)
    if kind == "stream":
        s = losa.open_hdf_stream(path, (2, 2), **kw)
        s[0, 0] = 1
        E.close_hdf(s)
        return None
    if kind == "txt":
        return losa.save_metadata_txt(path, 1.5, 2.5, [1.0], **kw)
    if kind == "json":
        return losa.save_metadata_json(path, 1.5, 2.5, [1.0], **kw)
    if kind == "pkl":
        return losa.save_python_list(path, [1, 2], **kw)
    if kind == "plot":
        return losa.save_plot_image(path, [E.arr([[1.0, 2], [3, 4]])], 100,
                                    120, **kw)
    if kind == "points":
        return losa.save_plot_points(path, [[1.0, 2], [3, 4]], 100, 120,
                                     **kw)
    if kind == "residual":
        return losa.save_residual_plot(path, E.arr([[1.0, 2], [3, 4]]), 300,
                                       320, **kw)
    raise KeyError(kind)


def keep(E):
    """overwrite=False"""
    kind, name, real, n = E.cfg[:4]
    how = E.cfg[4] if len(E.cfg) > 4 else ""
    d = E.fs_dir()
    losa = E.load("losa")
    stem, ext = real.rsplit(".", 1)
    names = [real] + ["%s_%04d.%s" % (stem, i, ext) for i in range(n)]
    sure = n - 1 if how == "many" else 0     # files that are surely there
    there = [i < sure or E.bool("e%d" % i) for i in range(len(names))]
    if "/" in real:
        E.fs_folder(d + "/" + real.rsplit("/", 1)[0], True)
    for p, e in zip(names, there):
        if how == "empty":
            E.fs_file(d + "/" + p, e, "")
        else:
            E.fs_file(d + "/" + p, e)
    if how == "relative":
        r = _save(E, losa, kind, name, False)
        if r is not None and not str(r).startswith("/"):
            r = d + "/" + str(r)
    else:
        r = _save(E, losa, kind, d + "/" + name, False)
    w = E.fs_written()
    E.check(len(w) == 1, "one new file")
    for p, e in zip(names, there):
        if d + "/" + p in w:
            E.check(E.Not(e), "an existing file was overwritten")
    E.check(E.fs_gone() == [], "an existing file was removed")
    E.check(w[0].startswith(d + "/" + stem) and w[0].endswith("." + ext),
            "name derived from the one given")
    if r is not None:
        E.check(str(r) == w[0], "path returned is the file written")
    E.check(E.Or(there[0], w[0] == d + "/" + real),
            "a free name is used as given")


def taken(E):
    """the name belongs to a folder"""
    kind, name, real = E.cfg
    d = E.fs_dir()
    losa = E.load("losa")
    E.fs_folder(d + "/" + real, True)
    E.fs_file(d + "/" + real + "/inside.txt", True)
    r = _save(E, losa, kind, d + "/" + name, False)
    w = E.fs_written()
    stem, ext = real.rsplit(".", 1)
    E.check(len(w) == 1 and w[0].startswith(d + "/" + stem) and
            w[0].endswith("." + ext) and w[0].count("/") == d.count("/") + 1,
            "one new file beside the folder")
    E.check(E.fs_gone() == [], "an existing file was removed")
    if r is not None:
        E.check(str(r) == w[0], "path returned is the file written")


def replace(E):
    """overwrite=True"""
    kind, name, real, how = E.cfg
    d = E.fs_dir()
    losa = E.load("losa")
    e = E.bool("e")
    E.fs_file(d + "/" + real, e)
    stem, ext = real.rsplit(".", 1)
    E.fs_file(d + "/" + stem + "_0000." + ext, E.bool("f"))
    E.fs_file(d + "/" + stem, E.bool("g"))
    r = _save(E, losa, kind, d + "/" + name, how)
    w = E.fs_written()
    E.check(w == [d + "/" + real], "exactly the file named is written")
    E.check(E.fs_gone() == [], "an existing file was removed")
    if r is not None:
        E.check(str(r) == w[0], "path returned is the file written")


def folders(E):
    """missing folders are created, present ones left alone"""
    kind, name, real = E.cfg
    d = E.fs_dir()
    losa = E.load("losa")
    a = E.bool("a")
    b = E.And(a, E.bool("b"))
    E.fs_folder(d + "/out", a)
    E.fs_folder(d + "/out/deep", b)
    if a:
        E.fs_file(d + "/out/other.txt", True)
    r = _save(E, losa, kind, d + "/out/deep/" + name, E.bool("over"))
    E.check(E.fs_written() == [d + "/out/deep/" + real],
            "the file is written in the new folder")
    E.check(E.fs_gone() == [], "nothing removed")
    if r is not None:
        E.check(str(r) == d + "/out/deep/" + real, "its path is returned")


def twice(E):
    """repeated saves under one name never lose a result"""
    kind, name, n = E.cfg
    d = E.fs_dir()
    losa = E.load("losa")
    E.fs_file(d + "/" + name, E.bool("e"))
    seen = []
    for i in range(n):
        _save(E, losa, kind, d + "/" + name, False)
        w = E.fs_written()
        E.check(len(w) == i + 1, "every save leaves a file of its own")
        E.check(all(p in w for p in seen), "earlier files stay")
        seen = w


KINDS = (("image", "p.png", "p.png"), ("hdf", "p.hdf", "p.hdf"),
         ("stream", "p.h5", "p.h5"), ("txt", "p.txt", "p.txt"),
         ("json", "p.json", "p.json"), ("pkl", "p.pkl", "p.pkl"),
         ("plot", "p.png", "p.png"), ("points", "p.png", "p.png"),
         ("residual", "p.png", "p.png"))
FIX = (("hdf", "p", "p.hdf"), ("stream", "p.txt", "p.hdf"),
       ("txt", "p", "p.txt"), ("json", "p.dat", "p.json"),
       ("pkl", "p", "p.pkl"), ("txt", "p.v1.dat", "p.v1.dat"),
       ("image", "p.q.tif", "p.q.tif"), ("hdf", "p.nxs", "p.nxs"),
       ("hdf", "p.H5", "p.H5"), ("hdf", "p.hdf5", "p.hdf5"),
       ("stream", "p.hdf5", "p.hdf5"), ("stream", "p.NXS", "p.NXS"),
       ("txt", "p.TXT", "p.TXT"), ("json", "p.JSON", "p.JSON"),
       ("pkl", "p.PKL", "p.PKL"), ("txt", "p.csv", "p.txt"))

HARNESSES = [
    H("keep", keep, quick=[k + (3,) for k in KINDS] +
      [k + (2,) for k in FIX] + [k + (2, "empty") for k in KINDS] +
      [(k[0], "o/q/" + k[1], "o/q/" + k[2], 2, "relative") for k in KINDS] +
      [k + (130, "many") for k in KINDS],
      thorough=[k + (6,) for k in KINDS + FIX],
      bounds="existence of the file and of 2-3 (thorough: 6) numbered "
             "successors, or of the last two of 130"),
    H("taken", taken, quick=list(KINDS), bounds="a folder of that name"),
    H("replace", replace, quick=[k + (True,) for k in KINDS] +
      [k + (None,) for k in FIX],
      bounds="existence of the file and two neighbours"),
    H("folders", folders, quick=[k for k in KINDS + FIX],
      bounds="two missing or present folder levels, either mode"),
    H("twice", twice, quick=[(k[0], k[1], 4) for k in KINDS],
      thorough=[(k[0], k[1], 12) for k in KINDS],
      bounds="4 (thorough: 12) saves"),
]
ASSUMPTIONS = ["files behave as in the model of symx/fs.py: a single process, "
               "no failures of the disk"]
