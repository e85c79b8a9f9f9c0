"""A key-value store shared by the simulated ranks; every access is a scheduling point."""
from collections.abc import MutableMapping

from .world import World, Op

_stores = {}


def _lookup(i):
    return _stores[i]


class SharedStore(MutableMapping):
    """`log` receives a snapshot of the contents after every modification."""

    def __init__(self, ident, snapshots=False):
        self.ident = ident
        self.data = {}
        self.snapshots = snapshots
        self.log = []
        self.n_ops = 0
        self.writers = {}  # key -> set of pids that wrote it
        self.listed_late = False
        _stores[ident] = self

    def __reduce__(self):
        return _lookup, (self.ident,)

    def _point(self, kind, key, write, fn):
        self.n_ops += 1
        w = World.current
        if w is None or w.running is None:
            return fn()
        pid = w.running.pid
        if write:
            self.writers.setdefault(key, set()).add(pid)
        elif kind == "list" and any(p != pid for s in self.writers.values() for p in s):
            self.listed_late = True
        acc = ((("store", self.ident, key), write),)
        return w.point(Op("store", pid, acc, fn, label=f"{kind} {key}"))

    def __getitem__(self, key):
        return self._point("get", key, False, lambda: self.data[key])

    def __contains__(self, key):
        return self._point("has", key, False, lambda: key in self.data)

    def __setitem__(self, key, value):
        def ex():
            self.data[key] = bytes(value) if not isinstance(value, bytes) else value
            if self.snapshots:
                self.log.append((key, dict(self.data)))

        self._point("set", key, True, ex)

    def __delitem__(self, key):
        def ex():
            del self.data[key]
            if self.snapshots:
                self.log.append((key, dict(self.data)))

        self._point("del", key, True, ex)

    def __iter__(self):
        return iter(self._point("list", "*", False, lambda: list(self.data)))

    def __len__(self):
        return len(self.data)

    def __bool__(self):
        return True
