"""Files for the harnesses: the same calls on the model file system (symbolic
execution) and in a scratch folder (replays on the real code)."""
import os

MARK = "not yours\n"


class SymFiles:
    def _fs(self):
        from . import fs
        return fs.fs()

    def fs_dir(self):
        """the (empty) working folder"""
        from . import fs
        self._fs()
        return fs.ROOT

    def fs_file(self, path, exists=True, text=MARK):
        """a file that is there or not"""
        from . import fs
        f = self._fs()
        f.files[f.norm(path)] = fs.Entry(text, exists)
        f.orig[f.norm(path)] = text

    def fs_folder(self, path, exists=True):
        f = self._fs()
        if exists is True:
            f.dirs.add(f.norm(path))
        elif exists is not False:
            f.maybe_dirs[f.norm(path)] = exists

    def fs_written(self):
        """files new or changed, in alphabetical order"""
        f = self._fs()
        return sorted(p for p, e in f.files.items()
                      if not isinstance(e.data, str) and e.exists is True or
                      isinstance(e.data, str)
                      and e.data != f.orig.get(p, MARK)
                      and e.exists is True)

    def fs_gone(self):
        """files that were there and are not any more"""
        f = self._fs()
        return sorted(f.removed)

    def fs_text(self, path):
        d = self._fs().read(path)
        return d if isinstance(d, str) else None

    def fs_image(self, path, a):
        from . import fs
        f = self._fs()
        f.files[f.norm(path)] = fs.Entry(fs.ImageData(a))

    def fs_hdf(self, path, tree):
        """tree: dataset path -> array, or None for an empty group"""
        from . import fs
        g = fs.Group("/")
        for k, v in tree:
            if v is None:
                g.require_group(k)
            else:
                g.create_dataset(k, data=v)
        f = self._fs()
        f.files[f.norm(path)] = fs.Entry(g)

    def fs_get_image(self, path):
        from . import fs
        d = self._fs().read(path)
        return d.a if isinstance(d, fs.ImageData) else None

    def fs_get_hdf(self, path):
        from . import fs
        d = self._fs().read(path)
        if not isinstance(d, fs.Group):
            return None
        out = {}

        def f(n, o):
            if isinstance(o, fs.Dataset):
                out[n] = o.a
        d.visititems(f)
        return out

    def fs_get_plot(self, path):
        """-> (points [(x, y, colour), ...], axis limits or None)"""
        from . import fs
        d = self._fs().read(path)
        if not isinstance(d, fs.Plot):
            return None
        return d.series(), d.limits()

    def fs_plot_size(self, path):
        """size of the picture in pixels, or None when not set"""
        from . import fs
        d = self._fs().read(path)
        return d.pixels() if isinstance(d, fs.Plot) else None

    def close_hdf(self, ds):
        pass


_HOOK = []


def _guard(event, args):
    """nothing outside the scratch folder is changed by a replay"""
    if not _HOOK:
        return
    try:
        if event == "open":
            p, mode, fl = args
            if not isinstance(p, (str, bytes, os.PathLike)) or not (
                    (fl or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
                return
        elif event in ("os.mkdir", "os.remove", "os.rmdir", "os.rename",
                       "os.truncate", "os.link", "os.symlink", "os.chmod"):
            p = args[0]
        else:
            return
    except Exception:
        return
    p = os.path.abspath(os.fspath(p))
    if isinstance(p, bytes):
        p = p.decode(errors="replace")
    if p.startswith(_HOOK[0]) or p.startswith("/dev/"):
        return
    raise PermissionError("outside the scratch folder: " + p)


class ConFiles:
    _fsd = None

    def fs_dir(self):
        import shutil
        import sys
        import tempfile
        if self._fsd is None:
            self._fsd = os.path.realpath(tempfile.mkdtemp(prefix="vchk"))
            os.mkdir(self._fsd + "/w")
            os.mkdir(self._fsd + "/mpl")
            os.environ["MPLCONFIGDIR"] = self._fsd + "/mpl"
            os.chdir(self._fsd + "/w")
            if not getattr(sys, "_vchk_hook", False):
                sys._vchk_hook = True
                sys.addaudithook(_guard)
            _HOOK[:] = [self._fsd]

            def rm():
                _HOOK[:] = []
                os.chdir("/")
                shutil.rmtree(self._fsd, ignore_errors=True)
            self._clean.append(rm)
            self._marked = {}
            self._size = {}
            self._plots = {}
            self._patch_plt()
        return self._fsd + "/w"

    def _patch_plt(self):
        import matplotlib
        matplotlib.use("Agg")
        from matplotlib.figure import Figure
        old = getattr(Figure, "_vchk_savefig", None) or Figure.savefig
        Figure._vchk_savefig = old
        plots, sizes = self._plots, self._size

        def savefig(fig, fname, *a, **k):
            pts, lim = [], None
            for ax in fig.axes:
                for ln in ax.lines:
                    for x, y in zip(ln.get_xdata(), ln.get_ydata()):
                        pts.append((x, y))
                for c in ax.collections:
                    for x, y in c.get_offsets():
                        pts.append((x, y))
                if ax.lines or ax.collections:
                    lim = (*ax.get_xlim(), *ax.get_ylim())
            r = old(fig, fname, *a, **k)
            p = os.path.abspath(os.fspath(fname))
            plots[p] = (pts, lim)
            w, h = fig.get_size_inches()
            dpi = k.get("dpi") or fig.dpi
            sizes[p] = (w * dpi, h * dpi)
            return r
        Figure.savefig = savefig

    def fs_file(self, path, exists=True, text=MARK):
        if exists:
            with open(path, "w") as f:
                f.write(text)
            self._marked[os.path.abspath(path)] = text

    def fs_folder(self, path, exists=True):
        if exists:
            os.makedirs(path, exist_ok=True)

    def fs_written(self):
        out = []
        for d, _, fs in os.walk(self._fsd + "/w"):
            for n in fs:
                p = os.path.join(d, n)
                with open(p, "rb") as f:
                    if f.read() != self._marked.get(p, MARK).encode():
                        out.append(p)
        return sorted(out)

    def fs_gone(self):
        return sorted(p for p in self._marked if not os.path.exists(p))

    def fs_text(self, path):
        with open(path) as f:
            return f.read()

    def fs_image(self, path, a):
        from PIL import Image
        Image.fromarray(a).save(path)

    def fs_hdf(self, path, tree):
        import h5py
        with h5py.File(path, "w") as f:
            for k, v in tree:
                if v is None:
                    f.require_group(k)
                else:
                    f.create_dataset(k, data=v)

    def fs_get_image(self, path):
        import numpy as np
        from PIL import Image
        with Image.open(path) as im:
            return np.array(im)

    def fs_get_hdf(self, path):
        import h5py
        out = {}

        def g(n, o):
            if isinstance(o, h5py.Dataset):
                out[n] = o[()]
        with h5py.File(path, "r") as f:
            f.visititems(g)
        return out

    def fs_get_plot(self, path):
        return self._plots.get(os.path.abspath(os.fspath(path)))

    def fs_plot_size(self, path):
        return self._size.get(os.path.abspath(os.fspath(path)))

    def close_hdf(self, ds):
        ds.file.close()
