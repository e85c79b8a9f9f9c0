"""C01: scalar halo exchange fills every halo cell from the geometrically adjacent cell."""
import itertools

import numpy as np

from mc import cube, load
from mc.core import Violation
from mc.explore import Explorer, verdict, run_world
from mc.fields import Spec, to_yx_last, same, first_diff, KINDS

ID = "C01"
LEVEL = "exploration"
RULE = (
    "every (layout, subtile size, staggering, ordered list of dimension names, halo width, dtype, "
    "memory layout, padding, send mode) of the stated finite product, run as a real multi-rank "
    "exchange and compared element by element on every rank with the folded-cube geometry; a case "
    "is one such tuple and is non-trivial because every storage element is a distinct value"
)
ASSUMPTIONS = [
    "MPI behaves as the simulated communicator (standard mode, per-pair FIFO with tags)",
    "square subtiles and square layouts (others are rejected by the library)",
    "values are drawn from injective encodings, plus NaN/inf; dtypes f8 f4 i8 i4 i2 bool",
]

VARIANTS = []  # (z dims) added to horizontal ones


def dim_orders(h, extras):
    names = list(h) + list(extras)
    return [list(p) for p in itertools.permutations(names)]


def jobs(tier, seed):
    out = []
    configs = []
    for stag in (0, 1):
        h = ("y_interface", "x_interface") if stag else ("y", "x")
        orders = []
        for extras in ((), ("z",), ("z_interface",), ("z_soil",), ("z", "tracer")):
            orders += dim_orders(h, extras)
        for o in orders:
            configs.append((stag, o))
    for n_sub in (1, 2, 3):
        for nx in ((1, 2, 3, 4) if tier == "thorough" else (1, 2, 3)):
            if n_sub == 3 and nx > 2 and tier == "quick":
                continue
            sel = configs
            if n_sub == 3:
                sel = [c for c in configs if len(c[1]) <= (3 if tier == "thorough" else 2)]
            if n_sub == 2 and tier == "quick":
                sel = [c for c in configs if len(c[1]) <= 3]
            step = {1: 12, 2: 6, 3: 3}[n_sub]
            for k in range(0, len(sel), step):
                out.append(
                    {"n_sub": n_sub, "nx": nx, "configs": sel[k : k + step], "weight": n_sub * n_sub * 10}
                )
    for n_sub in (1, 2):  # messages of many kilobytes
        for c in ((0, ["z", "y", "x"]), (1, ["y_interface", "x_interface", "z"])):
            out.append({"n_sub": n_sub, "nx": LARGE // n_sub, "configs": [c], "weight": 60})
    return out


LARGE = 64
DTYPES = ("f8", "f4", "i4", "i8", "?", "i2")


def run_job(job, rec):
    n_sub, nx = job["n_sub"], job["nx"]
    lay = cube.Layout(n_sub, nx)
    copies = load.copies(lay.total)
    k = 0
    if nx > 20:
        for stag, dims in job["configs"]:
            for n_points in (1, 3):
                group = [(("f8", "i8")[n_sub % 2], ("F", "C", "swapped")[n_points % 3], 1), ("f4", "mixed", 0)]
                key = {"lay": [n_sub, nx], "stag": stag, "dims": dims, "n": n_points, "group": group}
                rec.case(key, lambda: one(rec, lay, copies, stag, dims, n_points, group, "eager", job["seed"]))
        return
    for stag, dims in job["configs"]:
        for n_points in range(1, min(3, nx) + 1):
            # the product of dtypes / memory layouts / paddings is covered completely on
            # the single-rank-per-tile layout and diagonally on the larger ones
            if n_sub == 1 and len(dims) <= 3:
                combos = [
                    (dt, kind, pad)
                    for dt in DTYPES
                    for kind in KINDS + ("mixed",)
                    for pad in (0, 1)
                ]
                if job["tier"] == "quick":
                    combos = combos[k % 4 :: 4]
            else:
                combos = [
                    (DTYPES[(k + a) % 6], (KINDS + ("mixed",))[(k + 2 * a) % 7], (k + a) % 3)
                    for a in range(7 if n_sub < 3 else 2)
                ]
            k += 1
            # several variables per simulated run, updated one after the other on the
            # same communicator object
            for i in range(0, len(combos), 4):
                group = combos[i : i + 4]
                mode = ("rendezvous", "eager")[(k + i // 4) % 2]
                key = {"lay": [n_sub, nx], "stag": stag, "dims": dims, "n": n_points, "group": group, "mode": mode}
                rec.case(key, lambda: one(rec, lay, copies, stag, dims, n_points, group, mode, job["seed"]))


def build_specs(lay, stag, dims, n_points, group):
    nx = lay.nx
    sizes = {"x": nx, "y": nx, "x_interface": nx + 1, "y_interface": nx + 1,
             "z": 2 if nx < 20 else 48, "z_interface": 3, "z_soil": 2, "tracer": 2}
    specs = []
    for dt, kind, pad in group:
        per_rank = []
        for r in range(lay.total):
            lo, hi = {}, {}
            for j, d in enumerate(dims):
                if d[0] in "xy":
                    lo[d] = n_points + (pad if pad < 2 else (j + r) % 3)
                    hi[d] = n_points + (0 if pad == 0 else (1 + j + r) % 3 if pad == 2 else 1 + (d[0] == "x"))
                else:
                    lo[d], hi[d] = (0, 0) if pad == 0 else (1, 1) if pad == 1 else (0, 2)
            kd = KINDS[r % len(KINDS)] if kind == "mixed" else kind
            per_rank.append(Spec(dims, sizes, lo, hi, dt, kd))
        specs.append(per_rank)
    return specs


def one(rec, lay, copies, stag, dims, n_points, group, mode, seed):
    specs = build_specs(lay, stag, dims, n_points, group)
    halo = cube.scalar_halo(lay.n_sub, lay.nx, stag, stag, n_points)
    values, base = [], 0
    for per_rank in specs:
        row = []
        for s in per_rank:
            row.append(s.values(base, salt=seed, special=True))
            base += s.size
        values.append(row)
    expected = []
    for v, per_rank in enumerate(specs):
        expected.append(expect_scalar(lay, per_rank, values[v], halo))

    got = [[None] * lay.total for _ in specs]

    def rank_fn(r):
        def run(comm):
            util = copies[r].util
            part = util.CubedSpherePartitioner(util.TilePartitioner((lay.n_sub, lay.n_sub)))
            c = util.CubedSphereCommunicator(comm, part)
            qs = [specs[v][r].quantity(util, values[v][r]) for v in range(len(specs))]
            for v, q in enumerate(qs):
                c.halo_update(q, n_points)
                got[v][r] = q.data
        return run

    w = run_world(lay.total, [rank_fn(r) for r in range(lay.total)], copies, mode=mode)
    rec.executions += 1
    rec.transitions += w.n_steps
    v = verdict(w)
    if v is not None:
        raise v
    for v in range(len(specs)):
        for r in range(lay.total):
            if not same(got[v][r], expected[v][r]):
                raise Violation(
                    f"halo of variable {group[v]} dims {dims} on rank {r} is wrong: "
                    + first_diff(got[v][r], expected[v][r])
                )
    rec.sample({"layout": lay.n_sub, "nx": lay.nx, "dims": dims, "n_points": n_points, "group": group})


def expect_scalar(lay, per_rank, values, halo):
    """Expected storage arrays on every rank after a halo update."""
    out = []
    src = np.stack([
        to_yx_last(values[r], s)[
            ..., s.origin[s.axis(("y", "y_interface"))]:, s.origin[s.axis(("x", "x_interface"))]:
        ][..., : s.extent[s.axis(("y", "y_interface"))], : s.extent[s.axis(("x", "x_interface"))]]
        for r, s in enumerate(per_rank)
    ])
    for r, s in enumerate(per_rank):
        arr = values[r].copy()
        v = to_yx_last(arr, s)
        oy, ox = s.origin[s.axis(("y", "y_interface"))], s.origin[s.axis(("x", "x_interface"))]
        m = halo[r]
        y, x, r2, y2, x2 = m.T
        # src[r2, ..., y2, x2] with advanced indices first and last -> (n, extra...)
        picked = src[r2, ..., y2, x2]
        v[..., y + oy, x + ox] = np.moveaxis(picked, 0, -1)
        out.append(arr)
    return out
