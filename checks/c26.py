"""C26 reading HDF data: the slices asked for, the datasets there are."""
from .common import *


def _same(E, out, want, label):
    """out is the list of lists (2D) or list of images (3D) want"""
    def shape(v):
        s = []
        while isinstance(v, list):
            s.append(len(v))
            v = v[0]
        return tuple(s)
    E.shape_is(out, shape(want), label + ": shape")

    def walk(a, v):
        if isinstance(v, list):
            for i, w in enumerate(v):
                walk(a[i], w)
        else:
            E.eq(a, v, label + ": value")
    walk(out, want)


def _cut(a, axis, ids):
    """the images at positions ids along axis, same layout as a"""
    n = a.shape
    rng = [list(range(k)) for k in n]
    rng[axis] = list(ids)
    return [[[a[i, j, k] for k in rng[2]] for j in rng[1]] for i in rng[0]]


def _one(a, axis, i):
    n = a.shape
    if axis == 0:
        return [[a[i, j, k] for k in range(n[2])] for j in range(n[1])]
    if axis == 1:
        return [[a[j, i, k] for k in range(n[2])] for j in range(n[0])]
    return [[a[j, k, i] for k in range(n[1])] for j in range(n[0])]


def _put(E, shape, key, dtype="f4"):
    d = E.fs_dir()
    a = E.image("d", shape, dtype)
    E.fs_hdf(d + "/f.hdf", [(key, a)])
    return d + "/f.hdf", a


def single(E):
    shape, axis, key, form = E.cfg
    f, a = _put(E, shape, "entry/data")
    losa = E.load("losa")
    n = shape[axis]
    i = E.int("i", -n if form == "neg" else 0, n)
    i = next(k for k in range(-n, n + 1) if i == k)
    if form == "np":
        import numpy
        idx = numpy.int64(i)
    else:
        idx = i
    r = E.call(losa.load_hdf_file, f, key, idx, axis)
    if i >= n:
        E.check(r.raised, "an index beyond the data is reported")
        return
    E.check(r.ok and r.value is not None, "an image")
    _same(E, r.value, _one(a, axis, i % n), "one image")


def ranges(E):
    shape, axis, form = E.cfg
    f, a = _put(E, shape, "entry/data")
    losa = E.load("losa")
    n = shape[axis]
    lo = E.int("start", 0, n + 1)
    hi = E.int("stop", 0, n + 1)
    st = E.int("step", 1, 3) if form == 3 else 1
    lo = next(k for k in range(n + 2) if lo == k)
    hi = next(k for k in range(n + 2) if hi == k)
    if form == 3:
        st = next(k for k in range(1, 4) if st == k)
    idx = (lo, hi, st) if form == 3 else (lo, hi)
    r = E.call(losa.load_hdf_file, f, None, idx, axis)
    ids = list(range(lo, hi, st))
    if not ids:
        E.check(r.is_a(ValueError), "an empty range is reported")
        return
    if ids[-1] >= n:
        E.check(r.raised, "a range beyond the data is reported")
        return
    E.check(r.ok, "range read")
    want = _cut(a, axis, ids)
    if len(ids) == 1:
        want = _one(a, axis, ids[0])
    _same(E, r.value, want, "range of images")


def listed(E):
    shape, axis, ids = E.cfg
    f, a = _put(E, shape, "a/b/data")
    losa = E.load("losa")
    r = E.call(losa.load_hdf_file, f, "a/b/data", list(ids), axis)
    if any(x >= y for x, y in zip(ids, ids[1:])) and not r.ok:
        return             # h5py refuses lists that are not increasing
    E.check(r.ok, "listed images are read")
    out = r.value
    want = _one(a, axis, ids[0]) if len(ids) == 1 else _cut(a, axis, ids)
    _same(E, out, want, "listed images")


def whole(E):
    shape, dtype = E.cfg
    f, a = _put(E, shape, "entry/data", dtype)
    losa = E.load("losa")
    r = E.call(losa.load_hdf_file, f, "entry/data")
    if len(shape) not in (2, 3):
        E.check(r.is_a(ValueError), "neither 2D nor 3D: reported")
        return
    E.check(r.ok, "read")
    if len(shape) == 2:
        _same(E, r.value, [[a[i, j] for j in range(shape[1])]
                           for i in range(shape[0])], "whole")
        E.check(str(r.value.dtype) == str(a.dtype),
                "an image keeps its data type")
    else:
        _same(E, r.value, _cut(a, 0, range(shape[0])), "whole")
    o = losa.load_hdf_object(f, "entry/data")
    E.check(tuple(o.shape) == tuple(shape), "object")
    E.check(E.call(losa.load_hdf_object, f, "entry/dat").is_a(ValueError),
            "absent object is reported")


ONE = ("note", "entry/meta/energy", "y")
NODES = ("entry/data", "entry/meta/energy", "raw/frames/data", "note",
         "raw/data_b", "entry/data_a/data")
CAPS = ("Entry/Data", "entry/data", "Entry/DATA_2", "Scan/Meta/x")


def _tree(E, names):
    d = E.fs_dir()
    tree, there = [], []
    for k, n in enumerate(names):
        if n.endswith("/") or E.bool("n%d" % k):
            a = None if n.endswith("/") else E.image(n, (2 + k, 2) if
                                                    n not in ONE else (1,))
            tree.append((n.rstrip("/"), a))
            if a is not None:
                there.append((n, a))
    E.fs_hdf(d + "/t.nxs", tree)
    return d + "/t.nxs", there


def discover(E):
    """no key given: a dataset called data, if there is one in a group"""
    names, = E.cfg
    f, there = _tree(E, names)
    losa = E.load("losa")
    r = E.call(losa.load_hdf_file, f)
    cand = [a for n, a in there if n.split("/")[-1] == "data" and "/" in n]
    if not cand:
        E.check(r.is_a(ValueError), "no such dataset: reported")
        return
    E.check(r.ok, "found")
    hit = [a for a in cand if tuple(a.shape) == tuple(r.value.shape)]
    E.check(len(hit) == 1, "content of a dataset called data")
    _same(E, r.value, [[hit[0][i, j] for j in range(2)]
                       for i in range(hit[0].shape[0])], "found data")


def inform(E):
    names, pat = E.cfg
    f, there = _tree(E, names)
    losa = E.load("losa")
    if pat is None:
        ks, ss, ts = losa.get_hdf_information(f)
        pat = ""
    else:
        ks, ss, ts = losa.find_hdf_key(f, pat)
    E.check(len(ks) == len(ss) == len(ts), "lists of equal length")
    got = {}
    for k, s, t in zip(ks, ss, ts):
        E.check(pat in k, "keys match the pattern")
        got[k.strip("/")] = (s, t)
    for n, a in there:
        if pat in n:
            E.check(n in got, "every matching dataset is reported")
            E.check(tuple(got[n][0] or ()) == tuple(a.shape),
                    "with its shape")
            E.check(str(got[n][1]) == "float32", "with its type")
    have = dict(there)
    for k, (s, t) in got.items():
        E.check((s is None) == (k not in have), "only datasets have a shape")
        if k not in have:
            E.check(any(n.startswith(k + "/") for n in have) or
                    any(n.rstrip("/") == k or n.startswith(k + "/")
                        for n in names if n.endswith("/")),
                    "every key is in the file")


def stream(E):
    """data written through a stream is read back, with its metadata"""
    shape, key, over, dtype = E.cfg
    d = E.fs_dir()
    losa = E.load("losa")
    E.fs_file(d + "/s.hdf", E.bool("e"))
    v = E.image("v", shape, dtype or "f4")
    en = E.real("energy", 0, 100)
    num = E.arr([16777217, -5], "i8")
    kw = {} if dtype is None else {"data_type": dtype}
    if key is None:
        key = "entry/data"
    else:
        kw["key_path"] = key
    s = losa.open_hdf_stream(d + "/s.hdf", shape, overwrite=over,
                             options={"other/energy": en, "n": num}, **kw)
    E.check(tuple(s.shape) == tuple(shape), "shape of the stream")
    E.check(str(s.dtype) == (dtype or "float32"), "type of the stream")
    for i in range(shape[0]):
        s[i] = v[i]
    E.close_hdf(s)
    w = E.fs_written()
    E.check(len(w) == 1, "one file")
    h = E.fs_get_hdf(w[0])
    E.check(sorted(h) == sorted([key, "n", "other/energy"]),
            "its datasets")
    E.eq(h["other/energy"], en, "metadata")
    E.eq(h["n"][0], 16777217, "metadata", tol=0)
    E.eq(h["n"][1], -5, "metadata", tol=0)
    E.check(str(h["n"].dtype) == "int64", "metadata keep their type")
    _same(E, h[key], [[[v[i, j, k] for k in range(shape[2])]
                       for j in range(shape[1])] for i in range(shape[0])],
          "streamed data")
    r = E.call(losa.open_hdf_stream, d + "/bad.hdf", shape, key_path="entry",
               options={"entry/energy": en})
    E.check(r.is_a(ValueError), "metadata inside the dataset is refused")


def save(E):
    shape, key, dtype = E.cfg
    d = E.fs_dir()
    losa = E.load("losa")
    a = E.image("a", shape, dtype)
    keep = E.snap(a)
    p = losa.save_hdf_file(d + "/s.hdf", a, key_path=key) if key else \
        losa.save_hdf_file(d + "/s.hdf", a)
    key = key or "entry"
    h = E.fs_get_hdf(str(p))
    E.check(list(h) == [key + "/data"], "one dataset")
    E.check(str(h[key + "/data"].dtype) == str(a.dtype),
            "data keep their type in the file")
    out = losa.load_hdf_file(str(p))
    if len(shape) == 2:
        _same(E, out, [[a[i, j] for j in range(shape[1])]
                       for i in range(shape[0])], "loaded back")
    else:
        _same(E, out, _cut(a, 0, range(shape[0])), "loaded back")
    E.unchanged(a, keep, "data untouched")


SH = ((4, 3, 5), (2, 1, 3), (3, 2, 1), (1, 2, 2), (1, 1, 1))
HARNESSES = [
    H("single", single, quick=[(s, ax, k, "int") for s in SH
                               for ax, k in ((0, None), (1, "entry/data"),
                                             (2, None))] +
      [((4, 3, 5), 1, None, "np"), ((4, 3, 5), 0, None, "neg"),
       ((2, 3, 3), 1, "entry/data", "neg"), ((2, 2, 3), 2, None, "neg")],
      bounds="every image of 3D data with sides 1-5 along every axis"),
    H("ranges", ranges, quick=[(s, ax, fm) for s in SH[:4]
                               for ax in (0, 1, 2) for fm in (2, 3)],
      bounds="every start, stop (up to one beyond the data) and step 1-3",
      budget=90),
    H("listed", listed, quick=[((5, 3, 2), 0, (0, 1, 3, 4)),
                               ((2, 5, 2), 1, (1, 2, 3, 4)),
                               ((2, 2, 6), 2, (0, 2, 3, 5)),
                               ((2, 2, 6), 2, (4,)), ((4, 1, 2), 0, (3,)),
                               ((5, 3, 2), 0, (3, 0, 4, 1)),
                               ((2, 5, 2), 1, (1, 2, 2, 4)),
                               ((7, 1, 2), 0, (0, 2, 3, 5, 6))],
      bounds="index lists of length 1 and 4"),
    H("whole", whole, quick=[((2, 3), "f4"), ((1, 1), "u2"), ((2, 2), "f8"),
                             ((2, 1), "i4"), ((2, 3, 2), "u2"), ((1, 1, 4), "f4"),
                             ((3,), "f4"), ((2, 2, 2, 2), "f4")],
      bounds="1 to 4 dimensions"),
    H("discover", discover, quick=[(NODES,), (("a/b/c/data", "z/data"),),
                                   (("data1/x", "x/datas"),), (CAPS,),
                                   (("data", "x/mydata"),),
                               (("a/", "a2/b/", "c/data", "d/e/data",
                                 "f/"),)],
      bounds="up to 6 datasets, each present or absent"),
    H("inform", inform, quick=[(NODES, None), (NODES, "data"),
                               (NODES, "raw"), (NODES, "energy"),
                               (NODES, "entry/data"), (NODES, "zzz"),
                               (CAPS, "Data"), (CAPS, "data"),
                               (CAPS, "Entry"), (CAPS, None),
                               (("a/b/", "a/x", "c/", "d/e/f/", "y"), None),
                               (("a/b/", "a/x", "c/", "d/e/f/"), "e/f"),
                               (("a/", "b/data", "b/data_e/", "c/x/data",
                                 "d/"), "data"),
                               (("a/", "b/data", "c/x/data", "d/"), None)],
      bounds="up to 6 datasets, each present or absent"),
    H("stream", stream, quick=[((2, 2, 3), "entry/data", True, None),
                               ((1, 2, 2), "frames", False, "float64"),
                               ((1, 2, 2), None, True, "uint16"),
                               ((2, 1, 2), "a/b/c", True, "int32")],
      bounds="streams of 1-2 images"),
    H("save", save, quick=[((2, 3), "entry", "f8"), ((2, 2, 2), "a/b", "f8"),
                           ((2, 2), None, "u1"), ((1, 2, 2), None, "i4"),
                           ((2, 2), "e", "u2")],
      bounds="2D and 3D data"),
]
ASSUMPTIONS = ["h5py as modelled in symx/fs.py; conversion to float32 is "
               "taken as exact"]
