"""Import the package under test from the repository's working tree, once or as
independent per-process copies (one per simulated MPI rank)."""
import importlib
import importlib.machinery
import os
import sys
import types
import warnings

from mc import setorder

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
PKG = "fv3gfs"

warnings.simplefilter("ignore")

# third-party imports first: they may use their byte-code caches
for _name in ("numpy", "cftime", "xarray", "zarr", "fsspec", "netCDF4"):
    if _name not in os.environ.get("VERIF_MISSING", "").split(","):  # set by C24 only
        importlib.import_module(_name)

_memo = {}
_orig_get_code = importlib.machinery.SourceFileLoader.get_code


def _get_code(self, fullname):
    path = self.get_filename(fullname)
    real = os.path.realpath(path)
    if real.startswith(REPO + os.sep):
        # always compile the current source: never trust a stale byte-code file
        if real not in _memo:
            _memo[real] = setorder.compile_source(self.get_data(path), path)
        return _memo[real]
    return _orig_get_code(self, fullname)


importlib.machinery.SourceFileLoader.get_code = _get_code
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)


def _mods():
    return [n for n in sys.modules if n == PKG or n.startswith(PKG + ".")]


def _import_fresh():
    saved = {n: sys.modules.pop(n) for n in _mods()}
    try:
        importlib.invalidate_caches()
        util = importlib.import_module(PKG + ".util")
        for extra in ("partitioner", "boundary", "quantity", "testing", "zarr_monitor"):
            importlib.import_module(f"{PKG}.util.{extra}")
        real = os.path.realpath(util.__file__)
        if not real.startswith(REPO + os.sep):
            raise RuntimeError(f"imported {real}, not from {REPO}")
        mods = {n: sys.modules.pop(n) for n in _mods()}
    finally:
        sys.modules.update(saved)
    return util, mods


_SKIP = (types.ModuleType, types.FunctionType, type)


class Copy:
    """One independent copy of the package, as one MPI process would have."""

    def __init__(self):
        self.util, self.mods = _import_fresh()
        _names.update(self.mods)
        self._snapshot()

    def _containers(self, ns):
        for name, val in list(ns.items()):
            if name.startswith("__"):
                continue
            if isinstance(val, (dict, list, set)):
                yield name, val

    def _snapshot(self):
        self._ns = {}
        self._content = []
        self._caches = []
        seen = set()
        for name, mod in self.mods.items():
            ns = vars(mod)
            self._ns[name] = dict(ns)
            for _, val in self._containers(ns):
                if id(val) not in seen:
                    seen.add(id(val))
                    self._content.append((val, val.copy()))
            for val in list(ns.values()):
                self._scan(val, name, seen)
        self._cls_ns = []
        for mod in self.mods.values():
            for val in vars(mod).values():
                if isinstance(val, type) and val.__module__.startswith(PKG):
                    if id(val) not in seen:
                        seen.add(id(val))
                        self._cls_ns.append((val, dict(vars(val))))

    def _scan(self, val, modname, seen):
        if type(val).__name__ == "RaiseWhenAccessed":  # stands for a package that is missing (C24)
            return
        if hasattr(val, "cache_clear") and id(val) not in seen:
            seen.add(id(val))
            self._caches.append(val)
        if isinstance(val, type) and val.__module__.startswith(PKG):
            for _, sub in vars(val).items():
                sub = getattr(sub, "__func__", sub)
                if hasattr(sub, "cache_clear") and id(sub) not in seen:
                    seen.add(id(sub))
                    self._caches.append(sub)
                if isinstance(sub, (dict, list, set)) and id(sub) not in seen:
                    seen.add(id(sub))
                    self._content.append((sub, sub.copy()))
        if isinstance(val, types.FunctionType) and id(val) not in seen:
            for default in (val.__defaults__ or ()):
                if isinstance(default, (dict, list, set)) and id(default) not in seen:
                    seen.add(id(default))
                    self._content.append((default, default.copy()))

    def reset(self):
        """Back to the state right after import: as in a newly started process."""
        for name, mod in self.mods.items():
            ns, saved = vars(mod), self._ns[name]
            if len(ns) != len(saved):
                for k in [k for k in ns if k not in saved]:
                    del ns[k]
            for k, v in saved.items():
                if ns.get(k, self) is not v:
                    ns[k] = v
        for cls, saved in self._cls_ns:
            cur = vars(cls)
            for k in [k for k in cur if k not in saved and not k.startswith("__") and not k.startswith("_abc_")]:
                delattr(cls, k)
            for k, v in saved.items():
                if k.startswith("__") or k.startswith("_abc_"):
                    continue
                if cur.get(k, self) is not v:
                    setattr(cls, k, v)
        for obj, content in self._content:
            if isinstance(obj, list):
                obj[:] = content
            else:
                obj.clear()
                obj.update(content)
        for cache in self._caches:
            cache.cache_clear()

    def activate(self):
        mods = sys.modules
        mods.update(self.mods)
        if len(self.mods) != len(_names):
            for n in _names:
                if n not in self.mods:
                    mods.pop(n, None)

    def capture_new(self):
        """Modules imported lazily while this copy was active belong to it."""
        global _last_len
        if len(sys.modules) == _last_len:
            return
        _last_len = len(sys.modules)
        for n in _mods():
            if n not in self.mods:
                self.mods[n] = sys.modules[n]
                self._ns[n] = dict(vars(sys.modules[n]))
                _names.add(n)


_names = set()
_last_len = 0
_copies = []


def copies(n):
    while len(_copies) < n:
        _copies.append(Copy())
    return _copies[:n]


_main = None


def util():
    """The package for single-process checks (kept in sys.modules)."""
    global _main
    if _main is None:
        _main = copies(1)[0]
        _main.activate()
    return _main.util


def main_copy():
    util()
    return _main
