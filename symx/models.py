"""Models of the third-party calls the library makes."""
import types
from fractions import Fraction

import numpy as np

from . import terms as T
from . import arr, npsym
from .arr import A, SArr, mk, obj, elem, cast, is_num, F8
from .npsym import Shim, _UnsupportedObj
from .fft import FUNCS as FFT
from .terms import Sym, SBool, Unsupported


def unsup(msg):
    if T.CUR is not None:
        T.CUR.aborted = True
    raise Unsupported(msg)


# ------------------------------------------------------------------ sampling
class Win:
    """a window of a base image: rows oy.., columns ox.., rest indices"""

    def __init__(self, tag, pre, post, oy, ox, h, w, H, W):
        self.tag, self.pre, self.post = tag, pre, post
        self.oy, self.ox, self.h, self.w = oy, ox, h, w
        self.H, self.W = H, W

    def base(self):
        return (self.tag, self.pre, self.post)


def describe(a):
    """Win for a rectangular window of a tagged image, else ('mat', key)"""
    if getattr(a, "_is_larr", False):
        return a.describe()
    a = A(a)
    if a.ndim != 2:
        unsup("resampling of a %d-dimensional array" % a.ndim)
    o = obj(a)
    if o.size == 0:
        return ("mat", ("empty",) + o.shape)
    first = _meta(o[0, 0])
    if first is not None:
        tag, idx, shp = first
        # which axes move?
        for ya, xa in ((0, 1), (1, 2)):
            if len(idx) <= xa:
                continue
            oy, ox = idx[ya], idx[xa]
            ok = True
            for i in range(o.shape[0]):
                for j in range(o.shape[1]):
                    m = _meta(o[i, j])
                    e = list(idx)
                    e[ya], e[xa] = oy + i, ox + j
                    if m is None or m[0] != tag or m[1] != tuple(e):
                        ok = False
                        break
                if not ok:
                    break
            if ok:
                return Win(tag, idx[:ya], idx[xa + 1:], oy, ox, o.shape[0],
                           o.shape[1], shp[ya], shp[xa])
    key = (o.shape, tuple(npsym.skey(x) for x in o.flat))
    return ("mat", key)


def _meta(x):
    if not isinstance(x, Sym):
        return None
    at = x.single_atom()
    if at is None or at.meta is None or at.meta[0] != "pix":
        return None
    return at.meta[1:]


_MATID = {}


def matid(d):
    if isinstance(d, Win):
        return None
    return _MATID.setdefault(d, len(_MATID))


def sample(img, y, x, order, mode, extra=(), lib="nd", kind="f"):
    d = img if isinstance(img, (Win, tuple)) or \
        getattr(img, "_is_desc", False) else describe(img)
    if isinstance(d, Win):
        nm = "smp:%s:%s:%s:%s:%r" % (d.base(), lib, order, mode, extra)
        k2 = (nm, T.lift(y).key(), T.lift(x).key(),
              tuple(T.lift(v).key() for v in (d.oy, d.ox, d.h, d.w)))
        at = T.atom("smp", k2, (), kind == "i", False)
    else:
        nm = "smp:mat%d:%s:%s:%s:%r" % (matid(d), lib, order, mode, extra)
        k2 = (nm, T.lift(y).key(), T.lift(x).key())
        at = T.atom("smp", k2, (), kind == "i", False)
    if at.meta is None:
        at.meta = ("smp", d, T.lift(y), T.lift(x), lib, order, mode, extra)
    return Sym(T.patom(at), (), kind)


def _enum(x):
    if isinstance(x, Sym):
        return x.concretize()
    if isinstance(x, np.generic):
        return x.item()
    return x


MODES = {"reflect", "grid-mirror", "constant", "grid-constant", "nearest",
         "mirror", "wrap", "grid-wrap"}


def map_coordinates(input, coordinates, output=None, order=3, mode="constant",
                    cval=0.0, prefilter=True):
    order = _enum(order)
    mode = _enum(mode)
    if order < 0 or order > 5:
        raise RuntimeError("spline order not supported")
    if mode not in MODES:
        raise RuntimeError("boundary mode not supported")
    lar = getattr(input, "_is_larr", False) or arr.has_larr(coordinates)
    if lar:
        from . import larr
        return larr.map_coordinates(input, coordinates, output, order, mode,
                                    cval, prefilter)
    inp = A(input)
    co = A(coordinates) if not isinstance(coordinates, SArr) else coordinates
    if inp.ndim < 1 or co.shape[0] != inp.ndim:
        raise RuntimeError("invalid shape for coordinate array")
    if inp.ndim != 2:
        unsup("map_coordinates on %d dimensions" % inp.ndim)
    if output is not None:
        unsup("map_coordinates with output")
    d = describe(inp)
    ys, xs = obj(co[0]), obj(co[1])
    res = np.empty(ys.shape, object)
    f = res.reshape(-1)
    kd = "i" if inp.sd.kind in "iu" else "f"
    ex = ("cval", elem(cval)) if mode.endswith("constant") and elem(cval) != 0 \
        else ()
    if not prefilter and order > 1:
        ex = ex + ("noprefilter",)
    for i, (y, x) in enumerate(zip(ys.flat, xs.flat)):
        f[i] = sample(d, y, x, order, mode, ex, "nd", kd)
    return mk(res, inp.sd)


# ----------------------------------------------------------------- scipy.opt
class OptResult(dict):
    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise AttributeError(n)


def _const_minimize(E, fun, x0a, args, method, kw):
    """the real minimiser, when nothing symbolic is involved"""
    if "minimize_hook" in E.state:
        return None
    vals = []
    for a in list(obj(x0a).flat) + [a for a in args]:
        if isinstance(a, (T.Sym, T.SBool)):
            a = a.const() if isinstance(a, T.Sym) else None
        if a is None or not is_num(a):
            return None
        vals.append(Fraction(a) if not isinstance(a, float) else a)
    n = x0a.size
    cargs = tuple(vals[n:])

    def f(x):
        v = fun(A([Fraction(float(t)) for t in x]), *cargs)
        v = obj(A(v)).reshape(-1)[0] if not is_num(v) else v
        if isinstance(v, T.Sym):
            v = v.const()
        return float(v)
    import numpy as np
    import scipy.optimize
    r = scipy.optimize.minimize(f, np.array([float(v) for v in vals[:n]]),
                                method=method, **kw)
    return OptResult(x=A([Fraction(float(v)) for v in r.x]),
                     fun=Fraction(float(r.fun)), success=bool(r.success),
                     status=0, message="", nit=1, nfev=1)


def _minimize(fun, x0, args=(), method=None, **kw):
    E = T.CUR
    x0a = A(x0) if not is_num(x0) else A([x0])
    x0a = x0a.reshape((-1,))
    if not isinstance(args, tuple):
        args = (args,)
    r = _const_minimize(E, fun, x0a, args, method, kw)
    if r is not None:
        return r
    if kw:           # tolerances, limits: convergence is not a matter of course
        unsup("minimize with options")
    n = E.tick()
    xs = [T.fresh_atom("minx", (E.name, n, i))[1] for i in range(x0a.size)]
    x = A(xs)
    r = OptResult(x=x, fun=None, success=True, status=0, message="", nit=1,
                  nfev=1)
    rc = dict(kind="minimize", fun=fun, x0=x0a, args=args, x=x, method=method,
              kw=kw)
    E.records.append(("minimize", rc))
    hook = E.state.get("minimize_hook")
    if hook is not None:
        v = hook(rc)
        if v is not None:
            r["x"] = rc["x"] = A(v)
    return r


def _fsolve(func, x0, args=(), fprime=None, full_output=0, **kw):
    E = T.CUR
    x0a = A(x0) if not is_num(x0) else A([x0])
    x0a = x0a.reshape((-1,))
    if not isinstance(args, tuple):
        args = (args,)
    if kw:
        unsup("fsolve with options")
    n = E.tick()
    xs = [T.fresh_atom("fsx", (E.name, n, i))[1] for i in range(x0a.size)]
    x = A(xs)
    rc = dict(kind="fsolve", fun=func, x0=x0a, args=args, x=x, kw=kw)
    E.records.append(("fsolve", rc))
    hook = E.state.get("fsolve_hook")
    if hook is not None:
        hook(rc)
    else:
        out = func(x, *args)
        for e in (obj(A(out)).flat if not is_num(out) else [out]):
            E.add(T.eqv(e, 0))
    if full_output:
        return x, OptResult(fvec=A([0] * x0a.size), nfev=1), 1, "converged"
    return x


def _opaque_image(name):
    """an image-to-image operator kept opaque: same shape, fresh pixels
    determined by the input content and the arguments"""
    def f(input, *a, **k):
        g = T.CUR.state.get("ndimage", {}).get(name)
        if g is not None:
            return g(input, *a, **k)
        inp = A(input)
        o = obj(inp)
        key = (name, o.shape, tuple(npsym.skey(x) for x in o.flat),
               tuple(npsym.skey(x) if is_num(x) else repr(x) for x in a),
               tuple(sorted((n, repr(v)) for n, v in k.items())))
        out = np.empty(o.shape, object)
        for i, pos in enumerate(np.ndindex(o.shape)):
            at, s = T.fresh_atom("opq", (key, pos))
            at.meta = ("opq", name, inp, a, k, pos)
            out[pos] = s
        E = T.CUR
        r = mk(out, inp.sd if inp.sd.kind == "f" else inp.sd)
        E.records.append((name, dict(input=inp, args=a, kw=k, out=r)))
        return r
    return f


def _binary_dilation(input, structure=None, iterations=1, mask=None,
                     output=None, border_value=0, origin=0,
                     brute_force=False):
    from scipy import ndimage as nd
    if getattr(input, "_is_larr", False):
        from . import larr
        if input.spots is None or structure is None or iterations != 1 or \
                mask is not None or output is not None or border_value != 0 \
                or origin != 0:
            unsup("dilation of an array of symbolic size")
        return larr.dilate(input, structure, border_value)
    inp = A(input)
    vals = [e for e in obj(inp).flat]
    st = None if structure is None else np.array(
        [bool(e) for e in obj(A(structure)).flat]).reshape(
            A(structure).shape)
    m = np.array([bool(e) for e in vals]).reshape(inp.shape)
    return A(nd.binary_dilation(m, structure=st, iterations=iterations,
                                border_value=border_value))


def _label(input, structure=None, output=None):
    from scipy import ndimage as nd
    inp = A(input)
    m = np.array([bool(e if isinstance(e, T.SBool) else e != 0)
                  for e in obj(inp).flat]).reshape(inp.shape)
    lab, n = nd.label(m, structure)
    return A(lab), n


def _rotate(input, angle, axes=(1, 0), reshape=True, output=None, order=3,
            mode="constant", cval=0.0, prefilter=True):
    """opaque, same shape; determined by the image and the arguments"""
    if reshape or output is not None or tuple(axes) not in ((1, 0), (0, 1)):
        unsup("rotate with these options")
    sgn = 1 if tuple(axes) == (1, 0) else -1
    return _opaque_image("rotate")(input, elem(angle) * sgn, int(order),
                                   str(mode), elem(cval), bool(prefilter))


def _median1(input, size=None, **k):
    return _opaque_image("median_filter")(input, size, **k)


def _concrete(x):
    """value without symbolic parts, as numpy/python objects; else unsup"""
    if isinstance(x, SArr):
        vals = [_concrete(e) for e in obj(x).flat]
        d = x.sd if x.sd.kind in "iufb" else None
        return np.array(vals, dtype=d).reshape(x.shape)
    if isinstance(x, Sym):
        for v in (0, 1):        # a mask not decided yet
            if x == v:
                return v
        if x.k == "i":
            return x.concretize()
        unsup("library call on symbolic values")
    if isinstance(x, T.SBool):
        return bool(x)
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, (list, tuple)):
        return type(x)(_concrete(e) for e in x)
    d = getattr(x, "_shim_dtype", None)
    if d is not None:
        return d
    return x


def _sym(x):
    if isinstance(x, np.ndarray):
        return A(x)
    if isinstance(x, np.generic):
        return elem(A(x.reshape(1))[0])
    if isinstance(x, float):
        return Fraction(x) if np.isfinite(x) else x
    if isinstance(x, tuple):
        return tuple(_sym(e) for e in x)
    if isinstance(x, list):
        return [_sym(e) for e in x]
    return x


def lib(mod, name):
    """the library function itself, for calls whose arguments are decided"""
    import importlib
    f = getattr(importlib.import_module(mod), name)

    def g(*a, **k):
        a = [_concrete(x) for x in a]
        k = {n: _concrete(v) for n, v in k.items()}
        return _sym(f(*a, **k))
    g.__name__ = name
    return g


class _Region:
    def __init__(self, r):
        self._r = r

    def __getattr__(self, n):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return _sym(getattr(self._r, n))

    def __getitem__(self, n):
        return _sym(self._r[n])


def _regionprops(img, *a, **k):
    import skimage.measure as sm
    return [_Region(r) for r in sm.regionprops(_concrete(A(img)), *a, **k)]


def _otsu(image, *a, **k):
    if any(isinstance(v, (Sym, T.SBool)) for v in obj(A(image)).flat):
        unsup("skimage.filters.threshold_otsu of symbolic values")
    return lib("skimage.filters", "threshold_otsu")(image, *a, **k)


def _sk_get(mod):
    def get(n):
        if (mod, n) == ("skimage.filters", "threshold_otsu"):
            return _otsu
        if (mod, n) == ("skimage.measure", "regionprops"):
            return _regionprops
        if (mod, n) in (("skimage.segmentation", "clear_border"),
                        ("skimage.morphology", "disk"),
                        ("skimage.morphology", "opening"),
                        ("skimage.measure", "label")):
            return lib(mod, n)
        if mod in ("scipy.fftpack", "scipy.fft", "numpy.fft") and \
                n in FFT:
            return FFT[n]
        return _UnsupportedObj(mod + "." + n)
    return get


def _median(input, size=None, footprint=None, output=None, mode="reflect",
            cval=0.0, origin=0, **k):
    inp = A(input)
    E = T.CUR
    if not E.state.get("exact_filters") or footprint is not None or \
            output is not None or origin != 0 or k or mode != "reflect" or \
            inp.ndim != 2:
        kw = {n: v for n, v in (("mode", mode),) if v != "reflect"}
        return _opaque_image("median_filter")(input, size, **kw, **k)
    o = obj(inp)
    sz = (int(size),) * 2 if is_num(size) else tuple(int(v) for v in size)

    def ix(i, n):
        i %= 2 * n
        return i if i < n else 2 * n - 1 - i
    out = np.empty(o.shape, object)
    for y, x in np.ndindex(o.shape):
        v = [o[ix(y - sz[0] // 2 + a, o.shape[0]),
               ix(x - sz[1] // 2 + b, o.shape[1])]
             for a in range(sz[0]) for b in range(sz[1])]
        out[y, x] = v[npsym.argsort_values(v)[len(v) // 2]]
    return mk(out, inp.sd)


def _zoom(input, zoom, output=None, order=3, mode="constant", cval=0.0,
          prefilter=True, grid_mode=False):
    if not isinstance(zoom, Sym) and is_num(zoom) and zoom == 1:
        return A(input).copy()
    return unsup("zoom")


def _nd_get(n):
    if n == "zoom":
        return _zoom
    if n == "median_filter":
        return _median
    if n in ("find_objects", "center_of_mass", "sum", "sum_labels",
             "binary_fill_holes", "labeled_comprehension", "mean"):
        return lib("scipy.ndimage", n)
    if n == "map_coordinates":
        return map_coordinates
    if n in ("gaussian_filter", "gaussian_filter1d",
             "uniform_filter", "sobel", "laplace"):
        return _opaque_image(n)
    if n == "binary_dilation":
        return _binary_dilation
    if n == "label":
        return _label
    if n == "rotate":
        return _rotate
    if n in ("measurements", "interpolation", "filters", "morphology"):
        return NDIMAGE
    return _UnsupportedObj("scipy.ndimage." + n)


NDIMAGE = Shim("scipy.ndimage", _nd_get)


class OptimizeWarning(UserWarning):
    pass


def _opt_get(n):
    return {"minimize": _minimize, "fsolve": _fsolve,
            "OptimizeWarning": OptimizeWarning}.get(n) or \
        _UnsupportedObj("scipy.optimize." + n)


OPTIMIZE = Shim("scipy.optimize", _opt_get)


def _sp_get(n):
    if n == "ndimage":
        return NDIMAGE
    if n == "optimize":
        return OPTIMIZE
    if n in ("fft", "fftpack"):
        return Shim("scipy." + n, _sk_get("scipy." + n))
    return _UnsupportedObj("scipy." + n)


SCIPY = Shim("scipy", _sp_get)


# ----------------------------------------------------------------------- cv2
def _remap(src, map1, map2, interpolation=1, dst=None, borderMode=0,
           borderValue=0):
    if getattr(src, "_is_larr", False) or getattr(map1, "_is_larr", False):
        from . import larr
        return larr.remap(src, map1, map2, _enum(interpolation),
                          _enum(borderMode), borderValue)
    src, m1, m2 = A(src), A(map1), A(map2)
    if m1.sd != np.dtype("f4") or m2.sd != np.dtype("f4"):
        raise TypeError("remap needs float32 maps")
    if m1.shape != m2.shape or m1.ndim != 2:
        raise TypeError("maps of different shapes")
    interpolation, borderMode = _enum(interpolation), _enum(borderMode)
    kd = "i" if src.sd.kind in "iu" else "f"
    ys, xs = obj(m2), obj(m1)
    chans = [None] if src.ndim == 2 else list(range(src.shape[2]))
    outs = []
    for c in chans:
        d = describe(src if c is None else src[:, :, c])
        o = np.empty(ys.shape, object)
        for pos in np.ndindex(ys.shape):
            o[pos] = sample(d, ys[pos], xs[pos], interpolation, borderMode,
                            () if elem(borderValue) == 0 else
                            (repr(borderValue),), "cv", kd)
        outs.append(o)
    r = outs[0] if src.ndim == 2 else np.stack(outs, 2)
    return mk(r, src.sd)


_CV_CONST = {"INTER_NEAREST": 0, "INTER_LINEAR": 1, "INTER_CUBIC": 2,
             "INTER_AREA": 3, "INTER_LANCZOS4": 4, "BORDER_CONSTANT": 0,
             "BORDER_REPLICATE": 1, "BORDER_REFLECT": 2, "BORDER_WRAP": 3,
             "BORDER_REFLECT_101": 4, "BORDER_DEFAULT": 4,
             "BORDER_TRANSPARENT": 5, "CAP_PROP_FRAME_WIDTH": 3,
             "CAP_PROP_FRAME_HEIGHT": 4}


def _cv_get(n):
    E = T.CUR
    if n in _CV_CONST:
        return _CV_CONST[n]
    if n == "remap":
        return _remap
    if n in ("imshow", "waitKey", "destroyAllWindows", "destroyWindow"):
        def hook(*a):
            f = T.CUR.state.get("cv2", {}).get(n)
            if f is None:
                unsup("cv2." + n)
            return f(*a)
        return hook
    return _UnsupportedObj("cv2." + n)


CV2 = Shim("cv2", _cv_get)


# ------------------------------------------------------------------ warnings
def _warn(*a, **k):
    if T.CUR is not None:
        T.CUR.state["warned"] = T.CUR.state.get("warned", 0) + 1


class _CW:
    def __enter__(self):
        return []

    def __exit__(self, *a):
        return False


WARN = types.SimpleNamespace(
    warn=_warn, catch_warnings=lambda *a, **k: _CW(),
    simplefilter=lambda *a, **k: None, filterwarnings=lambda *a, **k: None)


def _opq_mod(name):
    return Shim(name, lambda n: _UnsupportedObj(name + "." + n))


def base_models():
    m = {"scipy": SCIPY, "scipy.ndimage": NDIMAGE, "scipy.optimize": OPTIMIZE,
         "cv2": CV2, "warnings": WARN}
    for n in ("skimage", "skimage.transform", "skimage.filters",
              "skimage.segmentation", "skimage.morphology", "skimage.measure",
              "scipy.fftpack", "scipy.fft", "numpy.fft"):
        m[n] = Shim(n, _sk_get(n))
    from . import fs
    m.update(fs.models())
    m["scipy.ndimage.measurements"] = NDIMAGE
    return m
