"""A file system (and the libraries writing to it) for symbolic execution.

Paths are concrete; whether a file exists may be symbolic; contents are
Python objects: text with placeholders for symbolic numbers, arrays, HDF
trees, pickled objects, plots."""
import copy
import fnmatch
import json as _json
import pathlib
import pickle
import posixpath
import re
import types
from fractions import Fraction

import numpy as np

from . import terms as T
from . import arr
from .arr import A, SArr, elem, obj, mk
from .npsym import Shim, _UnsupportedObj
from .terms import Sym, SBool, Unsupported

ROOT = "/w"


def unsup(m):
    if T.CUR is not None:
        T.CUR.aborted = True
    raise Unsupported(m)


# ------------------------------------------------------------------- numbers
class Tokens:
    """text of symbolic numbers: a placeholder per (value, format)"""
    PAT = re.compile("\ue000(\\d+)\ue001")

    def __init__(self):
        self.vals = []

    def fmt(self, x, spec):
        v = x
        m = re.fullmatch(r"[<>=^+ ]*\d*(?:\.(\d+))?([eEfFgGdn]?)", spec or "")
        if spec and m is None:
            unsup("format %r of a symbolic number" % spec)
        if spec and m.group(2) in ("f", "F"):
            k = 10 ** int(m.group(1) or 6)
            v = T.rint_(x * k) / Fraction(k)
        elif spec and (m.group(1) or m.group(2) in ("e", "E", "g", "G")):
            # so many significant digits: any value near by
            d = int(m.group(1) or 6) + (1 if m.group(2) in "eE" and
                                        m.group(2) else 0)
            at, e = T.fresh_atom("digits", (T.lift(x).key(), d))
            r = Fraction(1, 2 * 10 ** (d - 1))
            T.CUR.add(T.band(e <= r, e >= -r))
            v = x * (1 + e)
        self.vals.append(v)
        return "\ue000%d\ue001" % (len(self.vals) - 1)

    def value(self, s):
        m = self.PAT.fullmatch(s.strip())
        return None if m is None else self.vals[int(m.group(1))]


def plain(x):
    """numbers of a text file written by the harness"""
    return x


# ---------------------------------------------------------------- file system
class Entry:
    def __init__(self, data, exists=True):
        self.data = data
        self.exists = exists


class FS:
    def __init__(self):
        self.files = {}
        self.dirs = {"/", ROOT}
        self.maybe_dirs = {}       # path -> symbolic existence
        self.writes = []           # paths in the order they were written
        self.removed = set()
        self.orig = {}             # path -> text the harness put there

    @staticmethod
    def norm(p):
        return posixpath.normpath(posixpath.join(ROOT, str(p)))

    def isdir(self, p):
        p = self.norm(p)
        if p in self.maybe_dirs:
            v = bool(self.maybe_dirs.pop(p))
            if v:
                self.dirs.add(p)
            return v
        return p in self.dirs

    def isfile(self, p):
        e = self.files.get(self.norm(p))
        if e is None:
            return False
        if e.exists is not True and e.exists is not False:
            e.exists = bool(e.exists)
        return e.exists

    def exists(self, p):
        return self.isdir(p) or self.isfile(p)

    def read(self, p):
        if not self.isfile(p):
            raise FileNotFoundError(2, "No such file or directory", str(p))
        return self.files[self.norm(p)].data

    def write(self, p, data):
        q = self.norm(p)
        if self.isdir(q):
            raise IsADirectoryError(21, "Is a directory", str(p))
        if not self.isdir(posixpath.dirname(q)):
            raise FileNotFoundError(2, "No such file or directory", str(p))
        self.files[q] = Entry(data)
        self.writes.append(q)

    def remove(self, p):
        if not self.isfile(p):
            raise FileNotFoundError(2, "No such file or directory", str(p))
        self.files[self.norm(p)].exists = False
        self.removed.add(self.norm(p))

    def mkdir(self, p, parents=False, exist_ok=False):
        q = self.norm(p)
        if self.exists(q):
            if exist_ok and self.isdir(q):
                return
            raise FileExistsError(17, "File exists", str(p))
        par = posixpath.dirname(q)
        if not self.isdir(par):
            if not parents:
                raise FileNotFoundError(2, "No such file or directory",
                                        str(p))
            self.mkdir(par, True, True)
        self.dirs.add(q)

    def names(self, d):
        d = self.norm(d)
        out = {posixpath.basename(f) for f in list(self.files)
               if posixpath.dirname(f) == d and self.isfile(f)}
        out |= {posixpath.basename(f) for f in self.dirs
                if posixpath.dirname(f) == d and f != "/"}
        return sorted(out, reverse=True)     # the order is not specified


def fs():
    E = T.CUR
    if E is None:
        unsup("file access outside a harness")
    f = E.state.get("fs")
    if f is None:
        f = E.state["fs"] = FS()
    return f


# -------------------------------------------------------------------- pathlib
class Path(pathlib.PurePosixPath):
    def exists(self, **k):
        return fs().exists(self)

    def is_file(self):
        return fs().isfile(self)

    def is_dir(self):
        return fs().isdir(self)

    def resolve(self, strict=False):
        return type(self)(FS.norm(self))

    absolute = resolve

    def expanduser(self):
        return self

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        fs().mkdir(self, parents, exist_ok)

    def open(self, mode="r", *a, **k):
        return open_(self, mode, *a, **k)

    def read_text(self, *a, **k):
        with open_(self) as f:
            return f.read()

    def write_text(self, text, *a, **k):
        with open_(self, "w") as f:
            return f.write(text)

    def read_bytes(self):
        with open_(self, "rb") as f:
            return f.read()

    def write_bytes(self, data):
        with open_(self, "wb") as f:
            return f.write(data)

    def stat(self, **k):
        p = fs().norm(self)
        if fs().isdir(p):
            return types.SimpleNamespace(st_size=4096)
        d = fs().read(p)
        return types.SimpleNamespace(
            st_size=len(d) if isinstance(d, str) else 1000)

    def rglob(self, pat):
        if "/" in pat or "**" in pat:
            unsup("recursive glob")
        out = list(self.glob(pat))
        for n in fs().names(self):
            if fs().isdir(self / n):
                out += (self / n).rglob(pat)
        return iter(out)

    def unlink(self, missing_ok=False):
        try:
            fs().remove(self)
        except FileNotFoundError:
            if not missing_ok:
                raise

    def rename(self, to):
        d = fs().read(self)
        fs().write(to, d)
        fs().remove(self)
        return type(self)(to)

    replace = rename

    def touch(self, *a, **k):
        if not fs().exists(self):
            fs().write(self, "")

    def iterdir(self):
        return iter([self / n for n in fs().names(self)])

    def glob(self, pat):
        if "/" in pat or "**" in pat:
            unsup("recursive glob")
        return iter([self / n for n in fs().names(self)
                     if fnmatch.fnmatchcase(n, pat)])

    @classmethod
    def cwd(cls):
        return cls(ROOT)


# ----------------------------------------------------------------------- open
class File:
    def __init__(self, path, mode):
        self.path, self.mode = path, mode
        self.closed = False
        self.buf = []
        self.pos = 0
        if "x" in mode and fs().exists(path):
            raise FileExistsError(17, "File exists", str(path))
        if "r" in mode:
            self.data = fs().read(path)
            if "b" not in mode and not isinstance(self.data, str):
                unsup("reading %s as text" % type(self.data).__name__)
        elif "a" in mode:
            self.data = fs().read(path) if fs().isfile(path) else ""
            self.buf = [self.data]
            self._flush()
        else:
            self._flush()

    def _flush(self):
        if len(self.buf) == 1 and not isinstance(self.buf[0], str):
            fs().write(self.path, self.buf[0])
        else:
            fs().write(self.path, "".join(self.buf))

    def write(self, s):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if not any(c in self.mode for c in "wax+"):
            raise OSError("not writable")
        self.buf.append(s)
        w = fs().writes
        n = len(w)
        self._flush()
        del w[n:]
        return len(s) if isinstance(s, str) else 1

    def writelines(self, it):
        for s in it:
            self.write(s)

    def read(self, *a):
        d = self.data[self.pos:] if isinstance(self.data, str) else self.data
        self.pos = len(self.data) if isinstance(self.data, str) else 0
        return d

    def readlines(self):
        return self.read().splitlines(True)

    def readline(self):
        r = self.data[self.pos:].splitlines(True)
        if not r:
            return ""
        self.pos += len(r[0])
        return r[0]

    def __iter__(self):
        return iter(self.readlines())

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def open_(path, mode="r", *a, **k):
    return File(path, mode)


class Mod(types.SimpleNamespace):
    """a modelled module: what it lacks is not encoded"""
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        unsup("%s is not modelled" % n)


# ------------------------------------------------------------------------- os
OSPATH = Mod(
    **{n: getattr(posixpath, n) for n in (
        "join", "splitext", "basename", "dirname", "split", "normpath",
        "isabs", "sep", "commonprefix")},
    exists=lambda p: fs().exists(p), isfile=lambda p: fs().isfile(p),
    isdir=lambda p: fs().isdir(p),
    getsize=lambda p: Path(p).stat().st_size, abspath=FS.norm, realpath=FS.norm,
    expanduser=lambda p: p)


def _makedirs(p, mode=0o777, exist_ok=False):
    fs().mkdir(p, True, exist_ok)


OS = Mod(
    path=OSPATH, makedirs=_makedirs, mkdir=lambda p, mode=0: fs().mkdir(p),
    remove=lambda p: fs().remove(p), unlink=lambda p: fs().remove(p),
    listdir=lambda p=".": fs().names(p), sep="/", getcwd=lambda: ROOT,
    fspath=str, rename=lambda a, b: Path(a).rename(b),
    replace=lambda a, b: Path(a).rename(b), PathLike=pathlib.PurePath,
    name="posix", linesep="\n")


# ----------------------------------------------------------------------- json
def _enc(x, default):
    if isinstance(x, bool) or x is None or isinstance(x, (str, int)):
        return x
    if isinstance(x, Sym):
        return str(x)
    if isinstance(x, Fraction):
        return T.TOKENS.fmt(x, "")
    if isinstance(x, float):
        return x
    if isinstance(x, dict):
        return {k if isinstance(k, str) else str(k): _enc(v, default)
                for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_enc(v, default) for v in x]
    if default is None:
        raise TypeError("Object of type %s is not JSON serializable" %
                        type(x).__name__)
    return _enc(default(x), default)


def _dec(x):
    if isinstance(x, str):
        v = T.TOKENS.value(x)
        return x if v is None else v
    if isinstance(x, dict):
        return {k: _dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_dec(v) for v in x]
    return x


def _dumps(o, indent=None, default=None, cls=None, **k):
    if cls is not None:
        return _json.dumps(_enc(o, cls().default), indent=indent)
    return _json.dumps(_enc(o, default), indent=indent, ensure_ascii=False)


JSON = Mod(
    dump=lambda o, f, **k: f.write(_dumps(o, **k)), dumps=_dumps,
    load=lambda f, **k: _dec(_json.loads(f.read())),
    loads=lambda s, **k: _dec(_json.loads(s)),
    JSONEncoder=_json.JSONEncoder, JSONDecodeError=_json.JSONDecodeError)


# --------------------------------------------------------------------- pickle
class Pickled:
    def __init__(self, o):
        self.o = snapshot(o)


def snapshot(o):
    if isinstance(o, np.ndarray):
        return o.copy()
    if isinstance(o, dict):
        return {k: snapshot(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return type(o)(snapshot(v) for v in o)
    return o


def _pload(f, **k):
    return _ploads(f.read())


def _ploads(d, **k):
    if not isinstance(d, Pickled):
        raise ValueError("not a pickle")
    return snapshot(d.o)


PICKLE = Mod(
    dump=lambda o, f, *a, **k: f.write(Pickled(o)), load=_pload,
    dumps=lambda o, *a, **k: Pickled(o), loads=_ploads,
    PickleError=pickle.PickleError, UnpicklingError=pickle.UnpicklingError,
    HIGHEST_PROTOCOL=5, DEFAULT_PROTOCOL=5)


# ------------------------------------------------------------------------ PIL
class ImageData:
    """an image file or an image in memory"""
    def __init__(self, a):
        self.a = a

    size = property(lambda s: (s.a.shape[1], s.a.shape[0]))
    width = property(lambda s: s.a.shape[1])
    height = property(lambda s: s.a.shape[0])

    def __array__(self, dtype=None, copy=None):
        return self.a.copy()

    def save(self, path, *a, **k):
        ext = posixpath.splitext(str(path))[1].lower()
        if ext not in (".tif", ".tiff", ".png", ".jpg", ".jpeg", ".bmp"):
            raise ValueError("unknown file extension: " + ext)
        if ext not in (".tif", ".tiff") and self.a.sd != np.uint8 and \
                self.a.sd != np.bool_:
            raise OSError("cannot write this mode")
        fs().write(path, ImageData(self.a.copy()))

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _fromarray(a, mode=None):
    a = A(a)
    ok2 = ("u1", "b1", "i4", "u2", "i2", "f4", "f8")
    k = a.sd.kind + str(a.sd.itemsize)
    if a.ndim == 2 and k in ok2 or a.ndim == 3 and k == "u1" and \
            a.shape[2] in (2, 3, 4):
        return ImageData(a.copy())
    raise TypeError("Cannot handle this data type: %r, %s" % (a.shape, k))


def _iopen(path, *a, **k):
    d = fs().read(path)
    if not isinstance(d, ImageData):
        raise OSError("cannot identify image file %s" % path)
    return ImageData(d.a.copy())


IMAGE = Mod(open=_iopen, fromarray=_fromarray,
                              Image=ImageData)
PIL = Mod(Image=IMAGE)


# ----------------------------------------------------------------------- h5py
class H5Obj:
    def __init__(self, name):
        self.name = name


class Dataset(H5Obj):
    def __init__(self, name, a):
        super().__init__(name)
        self.a = a

    shape = property(lambda s: s.a.shape)
    dtype = property(lambda s: s.a.sd)
    ndim = property(lambda s: s.a.ndim)
    size = property(lambda s: s.a.size)

    def __len__(self):
        return self.a.shape[0]

    def __array__(self, dtype=None, copy=None):
        return self.a.copy()

    def __getitem__(self, idx):
        t = idx if isinstance(idx, tuple) else (idx,)
        for ax, c in enumerate(t):
            if isinstance(c, (list, np.ndarray)):
                v = [int(elem(x)) if not isinstance(elem(x), Sym) else
                     elem(x) for x in c]
                n = self.a.shape[ax]
                for x, y in zip(v, v[1:]):
                    if not (x < y):
                        raise TypeError("Indexing elements must be in "
                                        "increasing order")
                for x in v:
                    if not (x < n) or not (x >= 0):
                        raise IndexError("Fancy indexing out of range")
            elif isinstance(c, slice) and c.step is not None and c.step < 1:
                raise ValueError("Step must be >= 1")
        r = self.a[idx]
        return r.copy() if isinstance(r, np.ndarray) else r

    def __setitem__(self, idx, v):
        self.a[idx] = v


class Group(H5Obj):
    def __init__(self, name):
        super().__init__(name)
        self.kids = {}

    def _walk(self, key):
        cur = self
        for p in [p for p in key.split("/") if p]:
            if not isinstance(cur, Group) or p not in cur.kids:
                raise KeyError("Unable to open object (object %r doesn't "
                               "exist)" % p)
            cur = cur.kids[p]
        return cur

    def __getitem__(self, key):
        return self._walk(key)

    def get(self, key, default=None):
        return self._walk(key) if key in self else default

    def __contains__(self, key):
        try:
            self._walk(key)
            return True
        except KeyError:
            return False

    def _child(self, p):
        return (self.name.rstrip("/") + "/" + p)

    def create_group(self, key):
        cur = self
        ps = [p for p in key.split("/") if p]
        for i, p in enumerate(ps):
            if p in cur.kids:
                if i == len(ps) - 1 or not isinstance(cur.kids[p], Group):
                    raise ValueError("Unable to create group (name already "
                                     "exists)")
            else:
                cur.kids[p] = Group(cur._child(p))
            cur = cur.kids[p]
        return cur

    def require_group(self, key):
        return self[key] if key in self else self.create_group(key)

    def create_dataset(self, key, shape=None, dtype=None, data=None, **k):
        ps = [p for p in key.split("/") if p]
        cur = self if len(ps) == 1 else self.require_group("/".join(ps[:-1]))
        if ps[-1] in cur.kids:
            raise ValueError("Unable to create dataset (name already exists)")
        if data is not None:
            a = A(data).copy()
            if dtype is not None:
                a = a.astype(dtype)
        else:
            sh = (shape,) if not isinstance(shape, (tuple, list)) else \
                tuple(shape)
            o = np.empty(sh, object)
            o.fill(0)
            a = mk(o, np.dtype("f4" if dtype is None else arr.dt(dtype)))
        d = Dataset(cur._child(ps[-1]), a)
        d.file = getattr(self, "file", self)
        cur.kids[ps[-1]] = d
        return d

    def __setitem__(self, key, v):
        self.create_dataset(key, data=v)

    def keys(self):
        return sorted(self.kids)

    def values(self):
        return [self.kids[k] for k in self.keys()]

    def items(self):
        return [(k, self.kids[k]) for k in self.keys()]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.kids)

    def visititems(self, f, pre=""):
        for k, v in self.items():
            r = f(pre + k, v)
            if r is not None:
                return r
            if isinstance(v, Group):
                r = v.visititems(f, pre + k + "/")
                if r is not None:
                    return r
        return None

    def visit(self, f):
        return self.visititems(lambda n, o: f(n))


class H5File(Group):
    def __init__(self, path, mode="r", **k):
        super().__init__("/")
        self.filename = str(path)
        self.mode = mode
        if mode in ("r", "r+"):
            d = fs().read(path)
            if not isinstance(d, Group):
                raise OSError("Unable to open file (file signature not "
                              "found)")
            self.kids = d.kids
        elif mode == "a" and fs().isfile(path):
            self.kids = fs().read(path).kids
        else:
            if mode in ("w-", "x") and fs().exists(path):
                raise FileExistsError("Unable to create file")
            fs().write(path, self)

    def close(self):
        pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __bool__(self):
        return True


H5PY = Mod(File=H5File, Group=Group, Dataset=Dataset)


# ----------------------------------------------------------------- matplotlib
class Plot:
    def __init__(self):
        self.calls = []

    def series(self):
        """all points drawn, as (x, y)"""
        out = []
        for c in self.calls:
            if c[0] == "plot":
                for x, y in zip(_flat(c[1]), _flat(c[2])):
                    out.append((x, y))
        return out

    def pixels(self):
        """size of the picture"""
        s, dpi = None, 100
        for c in self.calls:
            if c[0] == "size":
                a = c[1][0] if len(c[1]) == 1 else c[1]
                s = tuple(a)
            elif c[0] == "dpi" and c[1][0] is not None:
                dpi = c[1][0]
        return None if s is None else (s[0] * dpi, s[1] * dpi)

    def limits(self):
        x = y = None
        for c in self.calls:
            if c[0] == "axis":
                a = c[1][0] if len(c[1]) == 1 else c[1]
                if isinstance(a, (tuple, list)) and len(a) == 4:
                    x, y = (a[0], a[1]), (a[2], a[3])
            elif c[0] in ("xlim", "ylim"):
                a = c[1][0] if len(c[1]) == 1 else c[1]
                a = tuple(a)[:2]
                x, y = (a, y) if c[0] == "xlim" else (x, a)
        return None if x is None or y is None else x + y


def _flat(x):
    if isinstance(x, np.ndarray):
        return [elem(v) for v in x.view(np.ndarray).ravel()]
    if isinstance(x, (list, tuple)):
        return [v for u in x for v in _flat(u)]
    return [x]


class Fig:
    """a figure, its axes, or the pyplot module itself"""
    Axes = staticmethod(lambda fig, rect=None, **k: fig)

    def __init__(self, top=False):
        self.__dict__["_top"] = top
        self.rcParams = _Rc()
        self.rcParamsDefault = {}

    def _cur(self):
        return T.CUR.state.setdefault("plot", Plot())

    def _rec(self, n, *a, **k):
        self._cur().calls.append((n, a, k))

    def figure(self, *a, **k):
        T.CUR.state["plot"] = Plot()
        self._start(k)
        return Fig()

    def subplots(self, *a, **k):
        T.CUR.state["plot"] = Plot()
        self._start(k)
        return Fig(), Fig()

    def _start(self, k):
        if k.get("figsize") is not None:
            self._rec("size", k["figsize"])
        self._rec("dpi", k.get("dpi"))

    def set_size_inches(self, *a, **k):
        self._rec("size", *a)

    def set_dpi(self, d):
        self._rec("dpi", d)

    def add_axes(self, *a, **k):
        return self

    add_subplot = gca = gcf = subplot = axes = add_axes

    def plot(self, *a, **k):
        a = [x for x in a if not isinstance(x, str)]
        if len(a) != 2:
            unsup("plot of %d arrays" % len(a))
        self._cur().calls.append(("plot", a[0], a[1]))
        return [Fig()]

    def scatter(self, x, y, *a, **k):
        self._cur().calls.append(("plot", x, y))
        return Fig()

    def axis(self, *a, **k):
        self._rec("axis", *a)

    def xlim(self, *a, **k):
        self._rec("xlim", *a)

    def ylim(self, *a, **k):
        self._rec("ylim", *a)

    set_xlim, set_ylim = xlim, ylim

    def savefig(self, path, *a, **k):
        self._rec("dpi", k.get("dpi"))
        fs().write(path, self._cur())

    def close(self, *a):
        T.CUR.state.pop("plot", None)

    def rc(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        return lambda *a, **k: Fig()


class _Rc(dict):
    pass


Plt = Fig


def models():
    plt = Plt()
    fm = Mod(findfont=lambda *a, **k: "/font.ttf")
    return {"pathlib": Mod(Path=Path, PosixPath=Path,
                                             PurePath=pathlib.PurePath),
            "os": OS, "os.path": OSPATH, "json": JSON, "pickle": PICKLE,
            "PIL": PIL, "PIL.Image": IMAGE, "h5py": H5PY,
            "platform": Mod(system=lambda: "Linux"),
            "matplotlib": Mod(pyplot=plt,
                                                font_manager=fm),
            "matplotlib.pyplot": plt, "matplotlib.font_manager": fm}
