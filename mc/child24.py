"""Executed by C24 in an interpreter of its own: features of the package with some packages missing.

usage: child24.py SCRATCH DEPTH (missing packages in VERIF_MISSING); prints one JSON line per sequence of features."""
import hashlib
import importlib.machinery
import itertools
import json
import os
import sys

MISSING = set(filter(None, os.environ["VERIF_MISSING"].split(",")))


class Finder:
    """Asked first: hides the missing packages as if they were not installed."""

    @staticmethod
    def find_spec(name, path=None, target=None):
        return None


_find = importlib.machinery.PathFinder.find_spec


def find_spec(name, path=None, target=None):
    if name.split(".")[0] in MISSING:
        return None
    return _find(name, path, target)


importlib.machinery.PathFinder.find_spec = staticmethod(find_spec)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if "gt4py" not in MISSING:
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "standins"))

import datetime  # noqa: E402

import cftime  # noqa: E402
import numpy as np  # noqa: E402

from mc import load  # noqa: E402
from mc.explore import POLICIES, policy, run_world, verdict  # noqa: E402

SCRATCH, DEPTH = sys.argv[1], int(sys.argv[2])
NOW = cftime.DatetimeJulian(2016, 8, 1, 0, 15)


def digest(*xs):
    h = hashlib.sha1()
    for x in xs:
        if isinstance(x, np.ndarray):
            h.update(repr((x.shape, str(x.dtype))).encode() + np.ascontiguousarray(x).tobytes())
        else:
            h.update(repr(x).encode())
    return h.hexdigest()[:16]


def quantity(u, dims=("z", "y", "x"), n=4, halo=1, base=0, units="m"):
    shape = tuple(3 if d == "z" else n + 2 * halo for d in dims)
    data = np.arange(np.prod(shape), dtype=float).reshape(shape) + base
    return u.Quantity(data, dims, units, origin=tuple(0 if d == "z" else halo for d in dims),
                      extent=tuple(3 if d == "z" else n for d in dims))


def world(fn, n=6):
    """fn(util, comm, rank) on n ranks; returns the ranks' digests."""
    copies = load.copies(n)
    out = [None] * n

    def rank(r):
        def run(comm):
            out[r] = fn(copies[r].util, comm, r)
        return run

    for c in copies:
        c.reset()
    w = run_world(n, [rank(r) for r in range(n)], copies, chooser=policy(POLICIES[0]), mode="eager", coll="loose")
    load.main_copy().activate()
    for p in w.procs:
        if isinstance(p.exc, ImportError):
            raise p.exc
    v = verdict(w, False)
    if v is not None:
        raise v
    return digest(*out)


def cube(u, comm):
    return u.CubedSphereCommunicator(comm, u.CubedSpherePartitioner(u.TilePartitioner((1, 1))))


# -- features: name -> (packages needed, function) ------------------------------------------------
def api(u):
    return digest([n for n in sorted(u.__all__) if getattr(u, n, u) is not u])


def views(u):
    q = quantity(u)
    q.view[1, 0:2, -1:0] = 7.0
    t = q.transpose(["x", "y", "z"])
    return digest(q.data, t.data, t.dims, repr(q), q.view.southwest[0, 0, 0], q.sel(x=0, y=slice(0, 2)), q.metadata.units, q.attrs)


def halo(u):
    def fn(u, comm, r):
        q = quantity(u, base=1000 * r)
        c = cube(u, comm)
        req = c.start_halo_update(q, 1)
        req.wait()
        return digest(q.data)
    return world(fn)


def vector(u):
    def fn(u, comm, r):
        x, y = quantity(u, base=1000 * r), quantity(u, base=1000 * r + 500)
        c = cube(u, comm)
        c.vector_halo_update(x, y, 1)
        a = u.Quantity(np.arange(20.0).reshape(5, 4) + 100 * r, ["y_interface", "x"], "m/s")
        b = u.Quantity(np.arange(20.0).reshape(4, 5) - 100 * r, ["y", "x_interface"], "m/s")
        c.synchronize_vector_interfaces(a, b)
        return digest(x.data, y.data, a.data, b.data)
    return world(fn)


def scatter(u):
    def fn(u, comm, r):
        q = quantity(u, base=1000 * r)
        c = cube(u, comm)
        g = c.gather(q)
        back = c.scatter(g)
        s = c.gather_state({"time": NOW, "a": q})
        t = c.scatter_state(s)
        return digest(back.data, None if g is None else g.data, t["a"].data, str(t["time"]))
    return world(fn)


def factory(u):
    s = u.SubtileGridSizer.from_tile_params(nx_tile=4, ny_tile=4, nz=3, n_halo=1, extra_dim_lengths={}, layout=(1, 1))
    n = u.SubtileGridSizer.from_namelist({"fv_core_nml": {"npx": 5, "npy": 5, "npz": 3, "layout": [1, 1]}})
    q = u.QuantityFactory(s, np).zeros(["x", "y_interface", "z"], "m", dtype=np.float32)
    return digest(q.data, q.origin, q.extent, n.get_shape(["x", "y", "z"]))


def nudge(u):
    a, b = {"a": quantity(u)}, {"a": quantity(u, base=5)}
    t = u.get_nudging_tendencies(a, b, {"a": datetime.timedelta(hours=1)})
    u.apply_nudging(a, b, {"a": datetime.timedelta(hours=1)}, datetime.timedelta(minutes=1))
    return digest(t["a"].view[:], a["a"].data)


def timer(u):
    t = u.Timer()
    with t.clock("a"):
        pass
    n = u.NullTimer()
    n.start("a")
    return digest(sorted(t.hits.items()), n.times)


def capture(u):
    import io

    path = os.path.join(SCRATCH, f"capture{os.getpid()}")
    with open(path, "w") as f, u.capture_stream(f) as out:
        f.write("hello")
        f.flush()
        os.write(f.fileno(), b"there")
    assert isinstance(out, io.BytesIO)
    with open(path) as f:
        left = f.read()
    os.remove(path)
    return digest(out.getvalue(), left)


def corners(u):
    q = quantity(u, dims=("x", "y", "z"))
    u.fill_scalar_corners(q, "x", u.TilePartitioner((1, 1)), 0, 1)
    return digest(q.data)


def buffers(u):
    a = np.arange(6.0).reshape(2, 3)[:, ::2]
    b = np.zeros((2, 4))[:, ::2]
    with u.send_buffer(np.empty, a) as s, u.recv_buffer(np.empty, b) as r:
        r[:] = s
    return digest(a, b)


def mock(u):
    shared = {}
    comms = [u.testing.DummyComm(r, 2, shared) for r in range(2)]
    got = np.zeros(3)
    comms[0].Isend(np.arange(3.0), dest=1)
    comms[1].Recv(got, source=0)
    return digest(got, comms[0].bcast(3, root=0), comms[1].bcast(None, root=0))


def small(u):
    p = u.CubedSpherePartitioner(u.TilePartitioner((2, 2)))
    return digest([p.boundary(b, r).to_rank for r in range(24) for b in (u.EAST, u.NORTH)], u.units_are_equal("m", " m"),
                  str(u.datetime64_to_datetime(np.datetime64("2016-08-01T00:15:00"))), sorted(u.FMS_TO_CFTIME_TYPE),
                  u.get_tile_index(5, 24), p.tile.subtile_extent(u.QuantityMetadata((0, 0), (4, 4), ("y", "x"), "m", np.ndarray, float, None)))


def labelled(u):
    q = quantity(u)
    d = q.data_array
    b = u.Quantity.from_data_array(d)
    return digest(np.asarray(d.values), d.dims, sorted(d.attrs.items()), b.data, b.dims, b.units)


def array(u):
    d = quantity(u).data_array
    return digest(type(d).__name__)


def dataset(u):
    q = quantity(u)
    d = u.to_dataset({"time": NOW, "a": q})
    return digest(sorted(d.data_vars), np.asarray(d["a"].values))


def write(u):
    path = os.path.join(SCRATCH, f"w{os.getpid()}.nc")
    try:
        u.write_state({"time": NOW, "a": quantity(u)}, path)
        with open(path, "rb") as f:
            return digest(f.read())
    finally:
        if os.path.exists(path):
            os.remove(path)


def read(u):
    s = u.read_state(os.path.join(SCRATCH, "state.nc"))
    return digest(sorted(s), s["a"].data, s["a"].units, str(s["time"]), s["time"].calendar)


def restart(u):
    def fn(u, comm, r):
        s = u.open_restart(os.path.join(SCRATCH, "restart"), cube(u, comm))
        return digest(*[(k, s[k].dims, s[k].units, digest(s[k].data)) if k != "time" else str(s[k]) for k in sorted(s)])
    return world(fn)


def monitor(u):
    store = {}
    m = u.ZarrMonitor(store, u.CubedSpherePartitioner(u.TilePartitioner((1, 1))), mpi_comm=u.testing.DummyComm(0, 1, {}))
    for k in range(2):
        m.store({"time": NOW + datetime.timedelta(hours=k), "a": quantity(u, base=10 * k)})
    return digest(sorted((k, bytes(v)) for k, v in store.items()))


def storage(u):
    q = u.Quantity(np.arange(12.0).reshape(3, 4), ["y", "x"], "m", gt4py_backend="numpy")
    q.storage[1, 1] = 5.0
    return digest(np.asarray(q.storage), q.data, q.gt4py_backend)


def backend(u):
    s = u.SubtileGridSizer.from_tile_params(nx_tile=4, ny_tile=4, nz=3, n_halo=1, extra_dim_lengths={}, layout=(1, 1))
    q = u.QuantityFactory.from_backend(s, "gtx86").ones(["x", "y", "z"], "m")
    return digest(q.data, q.origin, np.asarray(q.storage))


X = {"xarray"}
FEATURES = {
    "api": (set(), api), "views": (set(), views), "halo": (set(), halo), "vector": (set(), vector), "scatter": (set(), scatter),
    "factory": (set(), factory), "nudge": (set(), nudge), "timer": (set(), timer), "capture": (set(), capture),
    "corners": (set(), corners), "buffers": (set(), buffers), "mock": (set(), mock), "small": (set(), small),
    "labelled": (X, labelled), "array": (X, array), "dataset": (X, dataset), "write": (X | {"scipy"}, write), "read": (X | {"scipy"}, read),
    "restart": (X | {"scipy"}, restart), "monitor": ({"zarr", "xarray"}, monitor), "storage": ({"gt4py"}, storage),
    "backend": ({"gt4py"}, backend),
}


def attempt(u, name):
    try:
        return ["ok", FEATURES[name][1](u)]
    except Exception as e:
        return ["error", [c.__name__ for c in type(e).__mro__], str(e)[:300]]


def main():
    try:
        u = load.util()
        load.copies(6)
    except Exception as e:
        print(json.dumps({"seq": [], "import": f"{type(e).__name__}: {e}"}))
        return
    names = list(FEATURES)
    broken = [n for n in names if FEATURES[n][0] & MISSING]
    seqs = [(n,) for n in names]
    if DEPTH == 2:  # each feature twice, with the other in between, one of them lacking a package
        seqs += [(a, b, a) for a, b in itertools.product(names, repeat=2) if a in broken or b in broken]
    if DEPTH >= 3:
        seqs += [(a, b, a) for a, b in itertools.product(names, repeat=2)]
        seqs += [(a, b, c) for a in broken for b in broken for c in names]
    for seq in seqs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            data = json.dumps([attempt(u, n) for n in seq]).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        print(json.dumps({"seq": seq, "out": json.loads(data) if data else None}), flush=True)


if __name__ == "__main__":
    main()
