"""C24 saved calibration metadata and point lists load back unchanged."""
from .common import *


def _model(E, n, form, tag=""):
    mk = E.int if form == "int" else E.real
    xc = mk("xc" + tag, -10 ** 6, 10 ** 6)
    yc = mk("yc" + tag, -10 ** 6, 10 ** 6)
    cs = [mk("f%s%d" % (tag, i), -1000, 1000) for i in range(n)]
    return xc, yc, cs, (E.arr(cs) if form == "arr" else list(cs))


def _same(E, got, want, label):
    E.check(len(got[2]) == len(want[2]), label + ": number of coefficients")
    E.eq(got[0], want[0], label + ": xcenter", tol=0)
    E.eq(got[1], want[1], label + ": ycenter", tol=0)
    for a, b in zip(got[2], want[2]):
        E.eq(a, b, label + ": coefficient", tol=0)


def _fns(losa, kind):
    return getattr(losa, "save_metadata_" + kind), \
        getattr(losa, "load_metadata_" + kind)


def roundtrip(E):
    kind, n, form, name = E.cfg
    d = E.fs_dir()
    if E.sym:
        E.state["round32"] = True
    losa = E.load("losa")
    save, load = _fns(losa, kind)
    xc, yc, cs, given = _model(E, n, form)
    keep = E.snap(given)
    p = save(d + "/" + name, xc, yc, given)
    E.check(E.fs_written() == [str(p)], "one file written, its path returned")
    _same(E, load(p), (xc, yc, cs), "loaded back")
    E.unchanged(given, keep, "coefficients untouched")


def history(E):
    """several saves, with and without overwriting"""
    kind, plan = E.cfg
    d = E.fs_dir()
    losa = E.load("losa")
    save, load = _fns(losa, kind)
    ms, ps = [], []
    for k, (n, over) in enumerate(plan):
        m = _model(E, n, "list", "_%d_" % k)
        ms.append(m)
        ps.append(str(save(d + "/model." + kind, m[0], m[1], m[3],
                           overwrite=over)))
    for k, p in enumerate(ps):
        last = max(j for j in range(len(ps)) if ps[j] == p)
        _same(E, load(p), ms[last][:3], "save %d" % k)
        over = plan[k][1]
        if not over:
            E.check(p not in ps[:k], "an earlier save was overwritten")


def scalars(E):
    """numpy numbers of any type among the coefficients"""
    import numpy as np
    kind, types = E.cfg
    d = E.fs_dir()
    losa = E.load("losa")
    save, load = _fns(losa, kind)
    vals = {"i": -3, "u": 200, "f": -0.375}
    cs = [getattr(np, t)(vals[t[0]]) for t in types]
    want = [vals[t[0]] for t in types]
    k = E.real("f", -1000, 1000)
    xc, yc = E.real("xc", -9, 10 ** 6), np.float32(12.25)
    p = save(d + "/m." + kind, xc, yc, cs + [k])
    _same(E, load(p), (xc, 12.25, want + [k]), "loaded back")


def foreign(E):
    """a file written by hand in the documented format"""
    sep, n = E.cfg
    d = E.fs_dir()
    losa = E.load("losa")
    xc, yc, cs, _ = _model(E, n, "list")
    t = "xcenter%s%s\nycenter%s%s\n" % (sep, xc, sep, yc)
    for i, c in enumerate(cs):
        t += "factor%d%s%s\n" % (i, sep, c)
    E.fs_file(d + "/m.txt", True, t)
    _same(E, losa.load_metadata_txt(d + "/m.txt"), (xc, yc, cs), "read")


def pickled(E):
    lens, name = E.cfg
    d = E.fs_dir()
    losa = E.load("losa")
    data = [E.arr([[E.real("y%d_%d" % (i, j)), E.real("x%d_%d" % (i, j))]
                   for j in range(m)]) for i, m in enumerate(lens)]
    keep = E.snap(data)
    p = losa.save_python_list(d + "/" + name, data)
    E.check(E.fs_written() == [str(p)], "one file written, its path returned")
    out = losa.load_python_list(p)
    E.check(len(out) == len(data), "as many lines")
    for a, b in zip(out, data):
        E.shape_is(a, tuple(b.shape), "shape of a line")
        for r, s in zip(a, b):
            E.eq(r[0], s[0], "y", tol=0)
            E.eq(r[1], s[1], "x", tol=0)
    E.unchanged(data, keep, "list untouched")


def missing(E):
    which, = E.cfg
    d = E.fs_dir()
    losa = E.load("losa")
    E.fs_file(d + "/there.txt", True, "xcenter = 1\nycenter = 2\n")
    r = E.call(getattr(losa, which), d + "/absent.txt")
    E.check(r.is_a(ValueError, OSError), "absent file is reported")


HARNESSES = [
    H("roundtrip", roundtrip,
      quick=[("txt", 5, "list", "model.txt"), ("txt", 1, "arr", "m.dat"),
             ("txt", 2, "int", "model"), ("txt", 0, "list", "a.b.txt"),
             ("txt", 12, "list", "m.txt"),
             ("json", 5, "list", "model.json"), ("json", 2, "arr", "m.json"),
             ("json", 2, "int", "model"), ("json", 1, "list", "sub/m.JSON"),
             ("json", 12, "list", "m.json"), ("json", 12, "arr", "m.json"),
             ("txt", 11, "arr", "m.txt")],
      bounds="0-12 coefficients, centre within 1e6, coefficients within "
             "1000"),
    H("history", history,
      quick=[("txt", ((2, True), (3, True))), ("txt", ((3, True), (1, False))),
             ("json", ((2, True), (1, True))),
             ("json", ((1, False), (2, False))),
             ("txt", ((1, False), (2, False), (2, False), (1, True)))],
      bounds="2-4 saves under one name"),
    H("scalars", scalars,
      quick=[(k, t) for k in ("txt", "json") for t in (
          ("int64", "float32", "int8"), ("float64", "uint8", "int16"),
          ("float16", "int32", "uint16", "uint32", "uint64"))],
      bounds="numbers of every numpy type"),
    H("foreign", foreign, quick=[(" = ", 3), (" = ", 0), ("=  ", 2),
                                 (" : ", 1)],
      bounds="hand-written files, 0-3 coefficients"),
    H("pickled", pickled, quick=[((2, 3), "lines.pkl"), ((1,), "lines"),
                                 ((), "e.pkl"), ((4, 0, 1), "a/l.pkl")],
      bounds="up to 3 lines of up to 4 points"),
    H("missing", missing, quick=[("load_metadata_txt",),
                                 ("load_metadata_json",),
                                 ("load_python_list",)],
      bounds="absent file"),
]
ASSUMPTIONS = ["the text of a number (str, json) is read back as the same "
               "number; format specifications round",
               "files behave as in the model of symx/fs.py"]
