"""C23: the storage, the data and the view of a quantity are one memory, whatever is done to it."""
import itertools
import os
import sys

import numpy as np

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(__file__)), "standins"))
import gt4py  # noqa: E402  (before the package under test is imported)
from mc import cube, load  # noqa: E402
from mc.core import Violation  # noqa: E402
from mc.explore import POLICIES, policy, run_world, verdict  # noqa: E402
from mc.fields import KINDS, alloc, encode, first_diff, same  # noqa: E402

ID = "C23"
LEVEL = "exploration"
RULE = (
    "a case is one way of making a quantity (storage, array and backend, labelled array, factory, the numpy-like module) with one dimension list, origin, "
    "dtype, memory layout and backend, followed by every sequence of up to 3 operations on it; or one sequence of communication "
    "operations executed by all ranks, twice, with a backend and without; all are distinct"
)
ASSUMPTIONS = [
    "gt4py is not installed: its CPU storages are represented by the stand-in in mc/standins (an ndarray subclass with the "
    "backend's memory layout), with which the repository's own gt4py tests pass; GPU storages are not covered",
]
BACKENDS = ("numpy", "debug", "gtx86", "gtmc")
DTYPES = ("f8", "f4", "i4", "?")
LISTS = [d for k in range(1, 4) for base in (("y", "x", "z"), ("y_interface", "x", "z_soil"), ("x_interface", "y", "z_interface"))
         for d in itertools.permutations(base, k)]
LISTS = sorted(set(LISTS), key=lambda d: (len(d), d))
HOW = ("backend", "storage", "labelled", "factory", "module")
OPS = ("storage", "data", "view", "transpose", "again")


def jobs(tier, seed):
    deep = tier == "thorough"
    out = [{"what": "local", "part": k, "parts": 16, "depth": 4 if deep else 3} for k in range(16)]
    out += [{"what": "refuse"}]
    for system, l in (("tile", (1, 1)), ("tile", (1, 2)), ("tile", (2, 2)), ("tile", (3, 1)), ("cube", (1, 1)), ("cube", (2, 2))):
        for b in BACKENDS:
            out.append({"what": "comm", "sys": system, "layout": list(l), "backend": b, "depth": 3 if deep and l != (2, 2) else 2,
                        "weight": 30 * l[0] * l[1]})
    return out


def coherent(q, backend, values, what, origin=None, storage=None):
    """q's storage, data and view are the same values in the same memory."""
    s = q.storage
    if s is not q.storage:
        raise Violation(f"{what}: two accesses give different storages")
    if storage is not None and s is not storage:
        raise Violation(f"{what}: the storage object was replaced")
    if not isinstance(s, gt4py.storage.storage.CPUStorage):
        raise Violation(f"{what}: the storage is a {type(s).__name__}")
    if s.backend != backend or q.gt4py_backend != backend or q.metadata.gt4py_backend != backend:
        raise Violation(f"{what}: backend {s.backend!r} / {q.gt4py_backend!r}, expected {backend!r}")
    if isinstance(q.data, gt4py.storage.storage.Storage):
        raise Violation(f"{what}: data is a storage")
    if q.np is not np:
        raise Violation(f"{what}: np is {q.np!r}")
    if tuple(s.shape) != tuple(q.data.shape) or s.dtype != q.data.dtype:
        raise Violation(f"{what}: storage {s.shape} {s.dtype}, data {q.data.shape} {q.data.dtype}")
    if origin is not None and tuple(s.default_origin) != tuple(origin):
        raise Violation(f"{what}: default origin {s.default_origin} of the storage, origin {origin} of the quantity")
    raw = s.view(np.ndarray)
    if values is not None:
        for name, a in (("storage", raw), ("data", q.data)):
            if not same(a, values):
                raise Violation(f"{what}: {name}: " + first_diff(a, values))
        inner = values[tuple(slice(o, o + e) for o, e in zip(q.origin, q.extent))]
        if not same(np.asarray(q.view[:]), inner):
            raise Violation(f"{what}: view: " + first_diff(np.asarray(q.view[:]), inner))
    elif not same(raw, q.data):
        raise Violation(f"{what}: storage and data differ: " + first_diff(raw, q.data))
    if raw.size and (not np.shares_memory(raw, q.data) or raw.__array_interface__["data"] != q.data.__array_interface__["data"]):
        raise Violation(f"{what}: storage and data are different memory")


def geometry(dims, k):
    """origin, extent, shape"""
    origin = tuple((k + i) % 3 if d[0] in "xy" else (k // 2) % 2 for i, d in enumerate(dims))
    grow = (40 if len(dims) < 3 else 9) if k == 11 else 1  # one case in twelve is large
    extent = tuple((2 + (d[0] == "x")) * grow + d.endswith("interface") for d in dims)
    shape = tuple(o + e + (k + i) % 2 for i, (o, e) in enumerate(zip(origin, extent)))
    return origin, extent, shape


def create(util, how, dims, k, dtype, kind, backend, salt):
    """(quantity, expected storage values, expected default origin, given storage)"""
    if how in ("factory", "module"):
        h = k % 3
        sizer = util.SubtileGridSizer(nx=3, ny=2, nz=2, n_halo=h, extra_dim_lengths={"z_soil": 3})
        if how == "factory":
            f = util.QuantityFactory.from_backend(sizer, backend)
        else:  # the numpy-like module of storages; it always starts at the first element
            f = util.QuantityFactory(sizer, util.testing.gt4py_numpy)
        fill = ("zeros", "ones", "empty")[k % 3]
        q = getattr(f, fill)(dims, "m", dtype=np.dtype(dtype))
        want = None if fill == "empty" else np.full(sizer.get_shape(dims), fill == "ones", dtype)
        if tuple(q.extent) != tuple(sizer.get_extent(dims)) or tuple(q.origin) != tuple(sizer.get_origin(dims)):
            raise Violation(f"factory {dims}: origin {q.origin} extent {q.extent}")
        if q.data.shape != tuple(sizer.get_shape(dims)) or q.data.dtype != np.dtype(dtype):
            raise Violation(f"factory {dims}: {q.data.shape} {q.data.dtype}")
        return q, want, tuple(q.origin) if how == "factory" else (0,) * len(dims), None
    origin, extent, shape = geometry(dims, k)
    values = encode(np.arange(int(np.prod(shape, dtype=int))).reshape(shape), dtype, salt)
    if how == "storage":
        s = gt4py.storage.from_array(values, backend, origin, managed_memory=True)
        return util.Quantity(s, dims, "m", origin=origin, extent=extent), values, origin, s
    a = alloc(shape, np.dtype(dtype), kind if len(shape) else "C")
    a[...] = values
    if how == "labelled":
        import xarray

        q = util.Quantity.from_data_array(xarray.DataArray(a, dims=dims, attrs={"units": "m"}), origin=origin, extent=extent,
                                          gt4py_backend=backend)
    else:
        q = util.Quantity(a, dims, "m", origin=origin, extent=extent, gt4py_backend=backend)
    if not same(a, values):
        raise Violation("the array given was modified")
    return q, values, origin, None


def local(util, how, dims, k, dtype, kind, backend, seq, salt):
    q, values, origin, storage = create(util, how, dims, k, dtype, kind, backend, salt)
    what = f"{how} {dims} {dtype} {backend}"
    coherent(q, backend, values, what, origin, storage)
    storage = q.storage
    for step, op in enumerate(seq):
        what += " " + op
        fresh = encode(np.arange(q.data.size).reshape(q.data.shape) + 1000 * (step + 1), dtype, salt)
        if op == "storage":
            values = fresh
            q.storage[...] = fresh
        elif op == "data":
            values = fresh
            q.data[...] = fresh
        elif op == "view":
            inner = tuple(slice(o, o + e) for o, e in zip(q.origin, q.extent))
            values = np.array(q.data) if values is None else values.copy()
            values[inner] = fresh[inner]
            q.view[:] = fresh[inner]
        elif op == "transpose":
            before = np.array(q.data)
            order = list(range(len(q.dims)))
            order = order[1:] + order[:1] if step % 2 == 0 else order[::-1]
            old = q
            q = old.transpose([old.dims[i] for i in order])
            if (q.dims, q.origin, q.extent) != tuple(tuple(t[i] for i in order) for t in (old.dims, old.origin, old.extent)):
                raise Violation(f"{what}: {q.dims} {q.origin} {q.extent}")
            coherent(old, backend, before, what + " (original)", None, storage)
            values = np.transpose(before, order)
            origin, storage = tuple(q.origin), None
        else:  # everything that only reads
            repr(q), q.data_array, q.values, q.attrs, q.metadata, q.sel(), q.storage
        coherent(q, backend, values, what, origin, storage)
        storage = q.storage


def refuse(util, rec):
    def check(how, dims, b1, b2):
        origin, extent, shape = geometry(dims, 1)
        values = encode(np.arange(int(np.prod(shape, dtype=int))).reshape(shape), "f8")
        if how == "none":
            q = util.Quantity(values.copy(), dims, "m", origin=origin, extent=extent)
            for t in (q, q.transpose(dims[::-1])):
                if t.gt4py_backend is not None:
                    raise Violation(f"backend {t.gt4py_backend} without having been asked for")
                try:
                    t.storage
                except TypeError:
                    continue
                raise Violation("a quantity without backend has a storage")
            return
        s = gt4py.storage.from_array(values, b1, origin)
        try:
            q = util.Quantity(s, dims, "m", origin=origin, extent=extent, gt4py_backend=b2)
        except TypeError:
            if not same(s.view(np.ndarray), values):
                raise Violation("refused storage was modified")
            return
        raise Violation(f"storage of backend {b1} accepted together with backend {b2}: {q.gt4py_backend}")

    def module(name):
        m = util.testing.gt4py_numpy
        if name in ("zeros", "ones", "empty"):
            for shape in ((), (3,), (2, 3), (1, 2, 4)):
                for dtype in (None, "f4", int, bool):
                    a = getattr(m, name)(shape, **({} if dtype is None else {"dtype": dtype}))
                    if a.shape != shape or a.dtype != np.dtype(dtype or float) or a.backend != "numpy":
                        raise Violation(f"{name}({shape}, {dtype}): {a.shape} {a.dtype} {a.backend}")
                    if name != "empty" and not (np.asarray(a) == (name == "ones")).all():
                        raise Violation(f"{name}({shape}, {dtype}): {a}")
        elif getattr(m, name) is not getattr(np, name):
            raise Violation(f"{name} is not numpy's")

    for name in dir(np):
        if not name.startswith("__"):
            rec.case({"module": name}, lambda: module(name))
    for dims in LISTS:
        rec.case({"none": dims}, lambda: check("none", dims, None, None))
        for b1, b2 in itertools.product(BACKENDS, BACKENDS):
            rec.case({"both": dims, "storage": b1, "backend": b2}, lambda: check("both", dims, b1, b2))


CUBE_OPS = ("halo1", "halo2", "vector", "sync", "scatter", "scatter_into", "gather", "gather_into", "state", "nudge")
TILE_OPS = ("scatter", "scatter_into", "gather", "gather_into", "state", "nudge")


def run_comm(system, layout, n, copies, ops, dims, dtype, backend, coll, mode, pol, salt):
    """Executes the operations on all ranks; returns per rank the arrays after each operation."""
    m = (2, 2) if system == "cube" else (2, 3)
    h = 2
    sizes = {"y": m[0], "x": m[1], "z": 2}
    traces = [[] for _ in range(n)]

    def quantity(util, r, salt2, dims_, scale=1, tile=False, halo=h):
        ext = [6 if d == "tile" else sizes[d[0]] * (scale and {"y": layout[0], "x": layout[1]}.get(d[0], 1) if tile else 1)
               + d.endswith("interface") for d in dims_]
        org = [halo if d[0] in "xy" else 0 for d in dims_]
        shape = [e + 2 * o for e, o in zip(ext, org)]
        a = encode(np.arange(int(np.prod(shape))).reshape(shape) + 5000 * salt2 + 100000 * r, dtype, salt)
        return util.Quantity(a, dims_, "m", origin=org, extent=ext, gt4py_backend=backend)

    def note(r, op, *qs):
        for q in qs:
            if backend is not None:
                coherent(q, backend, None, f"{op} on rank {r} ({backend}, {q.dims})", tuple(q.origin))
            traces[r].append((op, q.dims, q.units, q.origin, q.extent, np.array(q.data) if op != "scatter" and op != "gather"
                              and op != "state" else np.array(q.view[:])))

    swap = {"x": "x_interface", "y": "y_interface"}

    def rank_fn(r):
        def run(comm):
            util = copies[r].util
            tile = util.TilePartitioner(layout)
            c = (util.CubedSphereCommunicator(comm, util.CubedSpherePartitioner(tile)) if system == "cube"
                 else util.TileCommunicator(comm, tile))
            gdims = (("tile",) if system == "cube" else ()) + dims
            root = r == 0
            q = quantity(util, r, 1, dims)
            x = quantity(util, r, 2, [swap[d] if d == "y" else d for d in dims])
            y = quantity(util, r, 3, [swap[d] if d == "x" else d for d in dims])
            keep = [v.storage if backend else None for v in (q, x, y)]
            for k, op in enumerate(ops):
                if op in ("halo1", "halo2"):
                    c.halo_update(q, int(op[-1]))
                elif op == "vector":
                    c.vector_halo_update(x, y, 1)
                elif op == "sync":
                    c.synchronize_vector_interfaces(x, y)
                elif op == "scatter":
                    g = quantity(util, 50, 4 + k, gdims, tile=True) if root else None
                    out = c.scatter(g) if root else c.scatter()
                    note(r, op, out, *((g,) if root else ()))
                elif op == "scatter_into":
                    g = quantity(util, 50, 4 + k, gdims, tile=True) if root else None
                    out = c.scatter(g, recv_quantity=q)
                    if out is not q:
                        raise Violation("the supplied quantity is not the one returned")
                elif op == "gather":
                    out = c.gather(q)
                    if root:
                        note(r, op, out)
                elif op == "gather_into":
                    g = quantity(util, 50, 4 + k, gdims, tile=True) if root else None
                    out = c.gather(q, recv_quantity=g)
                    if root:
                        if out is not g:
                            raise Violation("the supplied quantity is not the one returned")
                        note(r, op, g)
                elif op == "state":
                    back = c.gather_state({"b": q, "time": 7})
                    if root:
                        note(r, op, back["b"])
                    out = c.scatter_state(back) if root else c.scatter_state()
                    note(r, op, out["b"])
                else:
                    ref = quantity(util, r, 9 + k, dims, halo=1)
                    import datetime

                    t = util.apply_nudging({"a": q}, {"a": ref}, {"a": datetime.timedelta(seconds=8)}, datetime.timedelta(seconds=2))
                    note(r, op, ref)
                    traces[r].append((op, t["a"].dims, np.array(t["a"].view[:])))
                note(r, f"after {op}", q, x, y)
                if backend and any(v.storage is not s for v, s in zip((q, x, y), keep)):
                    raise Violation(f"{op}: a quantity's storage was replaced")
        return run

    w = run_world(n, [rank_fn(r) for r in range(n)], copies, coll=coll, mode=mode, chooser=policy(pol))
    v = verdict(w)
    if v is not None:
        raise v
    return traces, w.n_steps


def compare(a, b, what):
    for r, (ta, tb) in enumerate(zip(a, b)):
        if len(ta) != len(tb):
            raise Violation(f"{what}: rank {r} took another course than without a backend")
        for ea, eb in zip(ta, tb):
            if ea[:-1] != eb[:-1]:
                raise Violation(f"{what}: rank {r}: {ea[:-1]} with, {eb[:-1]} without a backend")
            if not same(ea[-1], eb[-1]):
                raise Violation(f"{what}: rank {r} {ea[0]} {ea[1]}: " + first_diff(ea[-1], eb[-1]))


def run_job(job, rec):
    what, salt = job["what"], job["seed"]
    util = load.util()
    if sys.modules.get("gt4py") is not gt4py:
        raise RuntimeError("the package under test did not import the gt4py stand-in")
    if what == "refuse":
        refuse(util, rec)
    elif what == "local":
        seqs = [s for d in range(job["depth"] + 1) for s in itertools.product(OPS, repeat=d)]
        cases = [c for c in itertools.product(HOW, LISTS, BACKENDS) if c[0] != "module" or c[2] == "numpy"][job["part"] :: job["parts"]]
        for k, (how, dims, backend) in enumerate(cases):
            for si, seq in enumerate(seqs):
                z = k + si + job["part"]
                dtype, kind = DTYPES[z % 4], KINDS[(z // 4) % 6]
                key = {"how": how, "dims": dims, "backend": backend, "ops": seq, "dtype": dtype, "k": z % 12, "mem": kind}
                rec.case(key, lambda: local(util, how, dims, z % 12, dtype, kind, backend, seq, salt))
                rec.transitions += len(seq) + 1
        rec.sample({"how": how, "dims": dims, "backend": backend, "operations": seq})
    else:
        layout = tuple(job["layout"])
        system = job["sys"]
        n = layout[0] * layout[1] * (6 if system == "cube" else 1)
        copies = load.copies(n)
        names = CUBE_OPS if system == "cube" else TILE_OPS
        orders = [("z", "y", "x"), ("x", "y", "z"), ("y", "x"), ("y", "z", "x")]
        seqs = list(itertools.product(names, repeat=job["depth"] if n <= 6 else 1))
        for k, ops in enumerate(seqs):
            dims, dtype = orders[k % 4], DTYPES[:3][(k // 4) % 3] if "nudge" not in ops else "f8"
            coll, mode, pol = ("loose", "sync")[k % 2], ("eager", "rendezvous")[(k // 2) % 2], POLICIES[k % 4]
            key = {"sys": system, "layout": layout, "backend": job["backend"], "ops": ops, "dims": dims, "dtype": dtype}

            def go():
                args = (system, layout, n, copies, ops, dims, dtype)
                a, s1 = run_comm(*args, job["backend"], coll, mode, pol, salt)
                b, s2 = run_comm(*args, None, coll, mode, pol, salt)
                rec.executions += 2
                rec.transitions += s1 + s2
                compare(a, b, f"{system} {layout} {ops} ({job['backend']})")
            rec.case(key, go)
        rec.sample({"system": system, "layout": layout, "operations": seqs[-1], "backend": job["backend"]})
