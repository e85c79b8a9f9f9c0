"""C02: vector halo exchange carries both components across tile edges with the right
component exchange and signs."""
import itertools

import numpy as np

from mc import cube, load
from mc.core import Violation
from mc.explore import verdict, run_world
from mc.fields import Spec, to_yx_last, same, first_diff, KINDS

ID = "C02"
LEVEL = "exploration"
RULE = (
    "every (layout, subtile size, Arakawa staggering A/B/C/D, ordered dimension list, halo width, "
    "dtype, memory layout, padding, send mode) of the stated finite product run as a real multi-rank "
    "vector exchange; every storage element of both components compared with the value obtained by "
    "carrying the vector over the shared edge of the embedded cube; all elements are distinct values"
)
ASSUMPTIONS = [
    "MPI behaves as the simulated communicator",
    "both components list corresponding dimensions at the same positions (documented precondition)",
    "signed dtypes f8 f4 i8 i4",
]

STAGS = {
    "A": ((0, 0), (0, 0)),
    "B": ((1, 1), (1, 1)),
    "C": ((1, 0), (0, 1)),
    "D": ((0, 1), (1, 0)),
}
DTYPES = ("f8", "f4", "i4", "i8")


def dims_of(order, stag):
    xi, yi = stag
    return [("x_interface" if xi else "x") if d == "X" else ("y_interface" if yi else "y") if d == "Y" else d
            for d in order]


def orders():
    out = []
    for extras in ((), ("z",), ("z_interface",), ("tracer", "z")):
        out += [list(p) for p in itertools.permutations(("Y", "X") + extras)]
    return out


def jobs(tier, seed):
    out = []
    for n_sub in (1, 2, 3):
        for nx in ((1, 2, 3, 4) if tier == "thorough" else (1, 2, 3)):
            if n_sub == 3 and nx > 2 and tier == "quick":
                continue
            for g in STAGS:
                sel = orders()
                if n_sub == 3:
                    sel = [o for o in sel if len(o) <= (3 if tier == "thorough" else 2)]
                elif n_sub == 2 and tier == "quick":
                    sel = [o for o in sel if len(o) <= 3]
                step = {1: 20, 2: 7, 3: 2}[n_sub]
                for k in range(0, len(sel), step):
                    out.append({"n_sub": n_sub, "nx": nx, "grid": g, "orders": sel[k : k + step],
                                "weight": n_sub * n_sub * 10})
    for n_sub in (1, 2):  # messages of many kilobytes
        for g in STAGS:
            out.append({"n_sub": n_sub, "nx": LARGE // n_sub, "grid": g, "orders": [orders()[-1]], "weight": 60})
    return out


LARGE = 64


def run_job(job, rec):
    n_sub, nx = job["n_sub"], job["nx"]
    lay = cube.Layout(n_sub, nx)
    copies = load.copies(lay.total)
    k = 0
    if nx > 20:
        order = ["Y", "z", "X"] if n_sub == 1 else ["X", "Y", "z"]
        for n_points in (1, 3):
            group = [(DTYPES[0], "F", 1), (DTYPES[1], "mixed", 0)]
            key = {"lay": [n_sub, nx], "grid": job["grid"], "order": order, "n": n_points, "group": group}
            rec.case(key, lambda: one(rec, lay, copies, job["grid"], order, n_points, group, "eager", job["seed"]))
        return
    for order in job["orders"]:
        for n_points in range(1, min(3, nx) + 1):
            if n_sub == 1 and len(order) <= 3:
                combos = [(dt, kind, pad) for dt in DTYPES for kind in KINDS + ("mixed",) for pad in (0, 1)]
                if job["tier"] == "quick":
                    combos = combos[k % 4 :: 4]
            else:
                combos = [(DTYPES[(k + a) % 4], (KINDS + ("mixed",))[(k + 2 * a) % 7], (k + a) % 3)
                          for a in range(7 if n_sub < 3 else 2)]
            k += 1
            for i in range(0, len(combos), 4):
                group = combos[i : i + 4]
                mode = ("rendezvous", "eager")[(k + i // 4) % 2]
                key = {"lay": [n_sub, nx], "grid": job["grid"], "order": order, "n": n_points,
                       "group": group, "mode": mode}
                rec.case(key, lambda: one(rec, lay, copies, job["grid"], order, n_points, group, mode, job["seed"]))


def make_specs(lay, dims, n_points, dt, kind, pad, comp):
    nx = lay.nx
    sizes = {"x": nx, "y": nx, "x_interface": nx + 1, "y_interface": nx + 1,
             "z": 2 if nx < 20 else 48, "z_interface": 3, "tracer": 2}
    per_rank = []
    for r in range(lay.total):
        lo, hi = {}, {}
        for j, d in enumerate(dims):
            if d[0] in "xy":
                lo[d] = n_points + (pad if pad < 2 else (j + r + comp) % 3)
                hi[d] = n_points + (0 if pad == 0 else (1 + j + r) % 3 if pad == 2 else 1 + comp)
            else:
                lo[d], hi[d] = (0, 0) if pad == 0 else (1, 1) if pad == 1 else (0, 2)
        kd = KINDS[(r + comp) % len(KINDS)] if kind == "mixed" else kind
        per_rank.append(Spec(dims, sizes, lo, hi, dt, kd))
    return per_rank


def interior_yx(values, s):
    ya, xa = s.axis(("y", "y_interface")), s.axis(("x", "x_interface"))
    return to_yx_last(values, s)[
        ..., s.origin[ya] : s.origin[ya] + s.extent[ya], s.origin[xa] : s.origin[xa] + s.extent[xa]
    ]


def expect_vector(lay, specs, values, halo):
    """specs[comp][rank], values[comp][rank] -> expected storage arrays."""
    src = [np.stack([interior_yx(values[c][r], specs[c][r]) for r in range(lay.total)]) for c in (0, 1)]
    out = [[], []]
    for c in (0, 1):
        for r, s in enumerate(specs[c]):
            arr = values[c][r].copy()
            v = to_yx_last(arr, s)
            oy, ox = s.origin[s.axis(("y", "y_interface"))], s.origin[s.axis(("x", "x_interface"))]
            rows = halo[r][c]
            for sc in (0, 1):
                m = rows[rows[:, 3] == sc]
                if len(m):
                    y, x, r2, _, y2, x2, sign = m.T
                    picked = np.moveaxis(src[sc][r2, ..., y2, x2], 0, -1)
                    v[..., y + oy, x + ox] = np.where(sign < 0, -picked, picked)
            out[c].append(arr)
    return out


def one(rec, lay, copies, grid, order, n_points, group, mode, seed):
    stag = STAGS[grid]
    halo = cube.vector_halo(lay.n_sub, lay.nx, stag[0], stag[1], n_points)
    if halo is None:
        raise AssertionError("grid not representable")
    all_specs, all_values, expected, base = [], [], [], 0
    for dt, kind, pad in group:
        specs = [make_specs(lay, dims_of(order, stag[c]), n_points, dt, kind, pad, c) for c in (0, 1)]
        values = [[], []]
        for c in (0, 1):
            for s in specs[c]:
                values[c].append(s.values(base, salt=seed, special=True))
                base += s.size
        all_specs.append(specs)
        all_values.append(values)
        expected.append(expect_vector(lay, specs, values, halo))
    got = [[[None] * lay.total, [None] * lay.total] for _ in group]

    def rank_fn(r):
        def run(comm):
            util = copies[r].util
            part = util.CubedSpherePartitioner(util.TilePartitioner((lay.n_sub, lay.n_sub)))
            c = util.CubedSphereCommunicator(comm, part)
            for v in range(len(group)):
                q = [all_specs[v][k][r].quantity(util, all_values[v][k][r]) for k in (0, 1)]
                c.vector_halo_update(q[0], q[1], n_points)
                got[v][0][r], got[v][1][r] = q[0].data, q[1].data
        return run

    w = run_world(lay.total, [rank_fn(r) for r in range(lay.total)], copies, mode=mode)
    rec.executions += 1
    rec.transitions += w.n_steps
    v = verdict(w)
    if v is not None:
        raise v
    for v in range(len(group)):
        for c in (0, 1):
            for r in range(lay.total):
                if not same(got[v][c][r], expected[v][c][r]):
                    raise Violation(
                        f"{'xy'[c]} component of {group[v]} (grid {grid}, order {order}) wrong on rank {r}: "
                        + first_diff(got[v][c][r], expected[v][c][r])
                    )
    rec.sample({"layout": lay.n_sub, "nx": lay.nx, "grid": grid, "order": order, "n_points": n_points})
