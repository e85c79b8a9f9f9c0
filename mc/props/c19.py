"""C19: allocated quantities have consistent sizes, origins and extents."""
import itertools

import numpy as np

from mc import load
from mc.core import Violation
from mc.fields import same

ID = "C19"
LEVEL = "exploration"
RULE = (
    "a case is one sizer (tile size, layout, rank, levels, halo width, extra dimensions, way of construction) with every "
    "dimension list of up to 4 dimensions asked for its origin, extent and shape; or one such sizer with every list of up to 3 "
    "dimensions allocated as zeros, ones and empty in every type; or one history of allocations and writes through one factory"
)
ASSUMPTIONS = ["tile sizes divide evenly by the layout", "gt4py storages are not available here; NumPy-like modules only"]
NAMES = ("x", "x_interface", "y", "y_interface", "z", "z_interface", "z_soil", "bin")
LISTS = [d for k in range(5) for d in itertools.permutations(NAMES, k)]
DTYPES = (float, int, "f4", "i4", bool, np.float64, "i2", "c16")
DEFAULT_HALO = 3


def jobs(tier, seed):
    out = [{"what": "sizes", "part": k, "parts": 16} for k in range(16)]
    out += [{"what": "alloc", "part": k, "parts": 8} for k in range(8)]
    out.append({"what": "uneven"})
    out += [{"what": "history", "part": k, "parts": 8} for k in range(8)]
    return out


def layouts(deep):
    top = 5 if deep else 4
    return list(itertools.product(range(1, top), repeat=2)) + [(1, 6), (6, 1), (8, 2), (2, 8)] + ([(16, 16), (1, 32)] if deep else [])


def configs(deep):
    """(ny per rank, nx per rank, layout, rank, nz, halo)."""
    for l in layouts(deep):
        total = l[0] * l[1]
        ranks = sorted({0, 1, total // 2, total - 1} & set(range(total))) if not deep else range(total)
        for m in ((1, 1), (1, 2), (3, 1), (4, 7)):
            for r in ranks:
                for nz in (1, 3):
                    for h in range(5):
                        yield m, l, r, nz, h


def expected(m, nz, h, extra):
    n = {"y": m[0], "x": m[1], "z": nz}
    out = {}
    for d in NAMES:
        if d in extra:
            out[d] = (0, extra[d], extra[d])
        elif d[0] in "xyz" and d != "z_soil":
            e = n[d[0]] + d.endswith("interface")
            pad = h if d[0] in "xy" else 0
            out[d] = (pad, e, n[d[0]] + 1 + 2 * pad)
    return out


def make(util, how, m, l, r, nz, h, extra):
    ny, nx = m[0] * l[0], m[1] * l[1]
    cls = util.SubtileGridSizer
    if how == "direct":
        return cls(m[1], m[0], nz, h, dict(extra))
    if how == "tile":
        return cls.from_tile_params(nx, ny, nz, h, dict(extra), l)
    if how == "tile_rank":
        return cls.from_tile_params(nx, ny, nz, h, dict(extra), l, tile_rank=r)
    if how == "partitioner":
        return cls.from_tile_params(nx_tile=nx, ny_tile=ny, nz=nz, n_halo=h, extra_dim_lengths=dict(extra), layout=l,
                                    tile_partitioner=util.TilePartitioner(l), tile_rank=r)
    nml = {"fv_core_nml": {"npx": nx + 1, "npy": ny + 1, "npz": nz, "layout": list(l)}, "other": {"layout": [9, 9]}}
    if how == "namelist":
        return cls.from_namelist(nml)
    return cls.from_namelist(nml, tile_partitioner=util.TilePartitioner(l), tile_rank=r)


HOW = ("direct", "tile", "tile_rank", "partitioner", "namelist", "namelist_rank")


def run_job(job, rec):
    util = load.util()
    globals()["job_" + job["what"]](job, rec, util, job["tier"] == "thorough")


def job_sizes(job, rec, util, deep):
    i = 0
    for m, l, r, nz, h in configs(deep):
        for how in HOW:
            if how.startswith("namelist") and h != DEFAULT_HALO:
                continue
            i += 1
            if i % job["parts"] != job["part"]:
                continue
            extra = {} if how.startswith("namelist") else {"z_soil": 4, "bin": 1 + i % 3} if i % 4 else {"z_soil": 2}
            exp = expected(m, nz, h, extra)
            lists = [d for k, d in enumerate(LISTS) if all(x in exp for x in d) and (deep or len(d) < 3 or (k + i) % 4 == 0)]

            def go():
                sizer = make(util, how, m, l, r, nz, h, extra)
                part = util.TilePartitioner(l)
                for dims in lists:
                    for given in (list(dims), tuple(dims)):
                        got = (sizer.get_origin(given), sizer.get_extent(given), sizer.get_shape(given))
                        want = tuple(tuple(exp[d][k] for d in dims) for k in range(3))
                        if tuple(tuple(g) for g in got) != want:
                            raise Violation(f"dims {dims}: origin, extent, shape {got}, expected {want}")
                        if any(not isinstance(v, (int, np.integer)) for g in got for v in g):
                            raise Violation(f"dims {dims}: sizes {got} are not all integers")
                    if len(dims) == 2 and dims[0][0] == "y" and dims[1][0] == "x":
                        full = [l[a] * m[a] + d.endswith("interface") for a, d in enumerate(dims)]
                        sub = tuple(part.subtile_extent(_meta(util, full, dims)))
                        if sub != tuple(got[1]):
                            raise Violation(f"dims {dims}: extent {got[1]} but the partitioner's subtile is {sub}")
                if dict(sizer.extra_dim_lengths) != extra or sizer.n_halo != h:
                    raise Violation("the sizer's parameters changed")

            rec.case({"how": how, "m": m, "layout": l, "rank": r, "nz": nz, "halo": h, "extra": extra}, go)
            rec.executions += len(lists)
    rec.sample({"lists": len(LISTS), "how": HOW})


def uneven(util, cuts_y, cuts_x):
    """A tile partitioner whose ranks have subtiles of different sizes."""
    layout = (len(cuts_y) - 1, len(cuts_x) - 1)

    class Uneven(util.TilePartitioner):
        def subtile_slice(self, rank, global_dims, global_extent, overlap=False):
            j, i = self.subtile_index(rank)
            out = []
            for d, n in zip(global_dims, global_extent):
                cuts, k = (cuts_y, j) if d in util.Y_DIMS else (cuts_x, i) if d in util.X_DIMS else ((0, n), 0)
                last = k == len(cuts) - 2
                out.append(slice(cuts[k], cuts[k + 1] + int(d in util.INTERFACE_DIMS and (overlap or last))))
            return tuple(out)

    return Uneven(layout), layout


def job_uneven(job, rec, util, deep):
    """The sizer of a rank has the size of that rank's subtile, whatever the partitioner makes of the tile."""
    sets = ((0, 5), (0, 1, 5), (0, 3, 5), (0, 2, 4), (0, 1, 3, 6), (0, 3, 4, 5), (0, 2, 5, 6, 8))
    for cy, cx in itertools.product(sets, repeat=2):
        for h in (0, 3):
            def go():
                part, layout = uneven(util, cy, cx)
                nml = {"fv_core_nml": {"npx": cx[-1] + 1, "npy": cy[-1] + 1, "npz": 2, "layout": list(layout)}}
                seen = set()
                for r in range(layout[0] * layout[1]):
                    j, i = divmod(r, layout[1])
                    exp = expected((cy[j + 1] - cy[j], cx[i + 1] - cx[i]), 2, h, {})
                    sizers = [util.SubtileGridSizer.from_tile_params(cx[-1], cy[-1], 2, h, {}, layout, part, r)]
                    if h == DEFAULT_HALO:
                        sizers.append(util.SubtileGridSizer.from_namelist(nml, tile_partitioner=part, tile_rank=r))
                        sizers.append(util.SubtileGridSizer.from_namelist(nml, part, r))
                    for sizer in sizers:
                        for dims in (("y", "x"), ("x_interface", "z", "y"), ("z_interface", "y_interface", "x")):
                            got = (sizer.get_origin(dims), sizer.get_extent(dims), sizer.get_shape(dims))
                            want = tuple(tuple(exp[d][k] for d in dims) for k in range(3))
                            if tuple(tuple(g) for g in got) != want:
                                raise Violation(f"rank {r} of a tile cut at {cy} and {cx}, dims {dims}: "
                                                f"origin, extent, shape {got}, expected {want}")
                    seen.add(tuple(got[1]))
                rec.executions += layout[0] * layout[1]

            rec.case({"cuts_y": cy, "cuts_x": cx, "halo": h}, go)


def _meta(util, full, dims):
    return util.Quantity(np.empty(full), dims, "m").metadata


class Recording:
    """A NumPy-like module whose allocators accept (and record) an origin."""

    def __init__(self):
        self.calls = []

    def _wrap(name):
        def f(self, shape, dtype=float, default_origin=None):
            self.calls.append((tuple(shape), default_origin))
            return getattr(np, name)(shape, dtype=dtype)
        return f

    zeros, ones, empty = _wrap("zeros"), _wrap("ones"), _wrap("empty")


def check_quantity(util, q, exp, dims, units, dtype, fill, what):
    o, e, s = (tuple(exp[d][k] for d in dims) for k in range(3))
    if (tuple(q.origin), tuple(q.extent), tuple(q.data.shape), tuple(q.dims), q.units) != (o, e, s, tuple(dims), units):
        raise Violation(f"{what}: origin {q.origin} extent {q.extent} shape {q.data.shape} dims {q.dims} units {q.units!r}, "
                        f"expected {o} {e} {s} {dims} {units!r}")
    if q.data.dtype != np.dtype(dtype):
        raise Violation(f"{what}: dtype {q.data.dtype}, expected {np.dtype(dtype)}")
    if fill is not None and not same(q.data, np.full(s, fill, dtype)):
        raise Violation(f"{what}: not filled with {fill}")
    if not q.data.flags.writeable:
        raise Violation(f"{what}: data cannot be written")


def job_alloc(job, rec, util, deep):
    short = [d for d in LISTS if len(d) < 4]
    i = 0
    for (m, l, h, nz) in itertools.product(((1, 2), (3, 2)), ((1, 1), (2, 3)), (0, 1, 3), (1, 2)):
        for dims in short:
            i += 1
            if i % job["parts"] != job["part"]:
                continue
            extra = {"z_soil": 4, "bin": 2}
            exp = expected(m, nz, h, extra)

            def go():
                sizer = make(util, HOW[i % 4], m, l, 0, nz, h, extra)
                module = Recording() if i % 3 == 0 else np
                factory = util.QuantityFactory(sizer, module)
                made = []
                for k, dtype in enumerate(DTYPES):
                    for name, fill in (("zeros", 0), ("ones", 1), ("empty", None)):
                        units = ("m", "", "K s^-1")[(i + k) % 3]
                        f = getattr(factory, name)
                        args = (list(dims) if k % 2 else dims, units)
                        q = f(*args) if dtype is float and k == 0 else f(*args, dtype=dtype)
                        check_quantity(util, q, exp, dims, units, dtype, fill, f"{name}({dims}, {dtype})")
                        made.append((q, fill, dtype, name))
                        if module is not np:
                            shape, origin = module.calls[-1]
                            if origin is not None and tuple(origin) != tuple(q.origin):
                                raise Violation(f"allocator was given origin {origin}, expected {q.origin}")
                for a in range(len(made)):
                    made[a][0].data[...] = 1 if made[a][1] == 0 else 0
                    for b in range(a + 1, len(made)):
                        q, fill, dtype, name = made[b]
                        if fill is not None and not (q.data == fill).all():
                            raise Violation(f"{name}({dims}, {dtype}) changed when another quantity was written")

            rec.case({"dims": dims, "m": m, "layout": l, "halo": h, "nz": nz, "i": i}, go)
            rec.executions += 24


def job_history(job, rec, util, deep):
    """Sequences of allocations, writes and re-use of one factory and one sizer."""
    choices = [(n, d, t) for n in ("zeros", "ones") for d in (("y", "x"), ("y_interface", "x"), ("z", "y", "x")) for t in (float, "i4")]
    depth = 4 if deep else 3
    for i, seq in enumerate(itertools.product(choices, repeat=depth)):
        if i % job["parts"] != job["part"]:
            continue

        def go():
            m, h, nz = (3, 2), 1 + i % 3, 2
            sizer = make(util, HOW[i % 4], m, (2, 1), 0, nz, h, {})
            exp = expected(m, nz, h, {})
            factory = util.QuantityFactory(sizer, np)
            live = []
            for k, (name, dims, dtype) in enumerate(seq):
                fill = int(name == "ones")
                q = getattr(factory, name)(dims, f"u{k}", dtype=dtype)
                check_quantity(util, q, exp, dims, f"u{k}", dtype, fill, f"step {k} {name}{dims}")
                q.data[...] = 10 + k
                live.append((q, 10 + k, dims, f"u{k}", dtype))
                for q2, v, d2, u2, t2 in live:
                    check_quantity(util, q2, exp, d2, u2, t2, v, f"after step {k}")

        rec.case({"history": [(n, d, str(t)) for n, d, t in seq]}, go)
        rec.executions += depth
