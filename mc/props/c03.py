"""C03: interface synchronisation makes shared vector edges agree."""
import itertools

import numpy as np

from mc import cube, load
from mc.core import Violation
from mc.explore import verdict, run_world
from mc.fields import Spec, to_yx_last, same, first_diff, KINDS
from mc.props.c02 import make_specs, interior_yx

ID = "C03"
LEVEL = "exploration"
RULE = (
    "every (layout, subtile size, ordered dimension list, dtype, memory layout, padding, send mode) "
    "of the stated finite product run as a real multi-rank synchronisation; every storage element of both "
    "components compared with the embedded-cube model; all elements are distinct values"
)
ASSUMPTIONS = [
    "MPI behaves as the simulated communicator",
    "both components list corresponding dimensions at the same positions",
]
STAG = ((0, 1), (1, 0))
DTYPES = ("f8", "f4", "i4", "i8")


def orders():
    out = []
    for extras in ((), ("z",), ("z_interface",), ("tracer", "z")):
        out += [list(p) for p in itertools.permutations(("Y", "X") + extras)]
    return out


def jobs(tier, seed):
    out = []
    for n_sub in (1, 2, 3):
        for nx in ((1, 2, 3, 4) if tier == "thorough" else (1, 2, 3)):
            if n_sub == 3 and nx > 2 and tier == "quick":
                continue
            sel = orders()
            if n_sub == 3:
                sel = [o for o in sel if len(o) <= (4 if tier == "thorough" else 3)]
            step = {1: 12, 2: 6, 3: 4}[n_sub]
            for k in range(0, len(sel), step):
                out.append({"n_sub": n_sub, "nx": nx, "orders": sel[k : k + step], "weight": n_sub * n_sub * 10})
    for n_sub in (1, 2):  # messages of many kilobytes
        out.append({"n_sub": n_sub, "nx": LARGE // n_sub, "orders": [["Y", "z", "X"], ["z", "X", "Y"]], "weight": 60})
    return out


LARGE = 96


def dims_of(order, c):
    table = ({"X": "x", "Y": "y_interface"}, {"X": "x_interface", "Y": "y"})[c]
    return [table.get(d, d) for d in order]


def run_job(job, rec):
    n_sub, nx = job["n_sub"], job["nx"]
    lay = cube.Layout(n_sub, nx)
    copies = load.copies(lay.total)
    k = 0
    if nx > 20:
        for order in job["orders"]:
            group = [(DTYPES[n_sub % 2], "mixed", 0, 1)]
            key = {"lay": [n_sub, nx], "order": order, "group": group}
            rec.case(key, lambda: one(rec, lay, copies, order, group, "eager", job["seed"]))
        return
    for order in job["orders"]:
        if n_sub == 1:
            combos = [(dt, kind, pad, h) for dt in DTYPES for kind in KINDS + ("mixed",)
                      for pad in (0, 1) for h in (0, 2)]
            if job["tier"] == "quick":
                combos = combos[k % 4 :: 4]
        else:
            combos = [(DTYPES[(k + a) % 4], (KINDS + ("mixed",))[(k + 2 * a) % 7], (k + a) % 3, (0, 1, 3)[a % 3])
                      for a in range(7 if n_sub < 3 else 3)]
        k += 1
        for i in range(0, len(combos), 5):
            group = combos[i : i + 5]
            mode = ("rendezvous", "eager")[(k + i // 5) % 2]
            key = {"lay": [n_sub, nx], "order": order, "group": group, "mode": mode}
            rec.case(key, lambda: one(rec, lay, copies, order, group, mode, job["seed"]))


def expect_sync(lay, specs, values):
    src = [np.stack([interior_yx(values[c][r], specs[c][r]) for r in range(lay.total)]) for c in (0, 1)]
    rows = cube.interface_sync(lay.n_sub, lay.nx)
    out = [[], []]
    for c in (0, 1):
        for r, s in enumerate(specs[c]):
            arr = values[c][r].copy()
            v = to_yx_last(arr, s)
            oy, ox = s.origin[s.axis(("y", "y_interface"))], s.origin[s.axis(("x", "x_interface"))]
            mine = rows[r][rows[r][:, 0] == c]
            for sc in (0, 1):
                m = mine[mine[:, 4] == sc]
                if len(m):
                    _, y, x, r2, _, y2, x2, sign = m.T
                    picked = np.moveaxis(src[sc][r2, ..., y2, x2], 0, -1)
                    v[..., y + oy, x + ox] = np.where(sign < 0, -picked, picked)
            out[c].append(arr)
    return out


def one(rec, lay, copies, order, group, mode, seed):
    all_specs, all_values, expected, base = [], [], [], 0
    for dt, kind, pad, halo in group:
        specs = [make_specs(lay, dims_of(order, c), halo, dt, kind, pad, c) for c in (0, 1)]
        values = [[], []]
        for c in (0, 1):
            for s in specs[c]:
                values[c].append(s.values(base, salt=seed, special=True))
                base += s.size
        all_specs.append(specs)
        all_values.append(values)
        expected.append(expect_sync(lay, specs, values))
    got = [[[None] * lay.total, [None] * lay.total] for _ in group]

    def rank_fn(r):
        def run(comm):
            util = copies[r].util
            part = util.CubedSpherePartitioner(util.TilePartitioner((lay.n_sub, lay.n_sub)))
            c = util.CubedSphereCommunicator(comm, part)
            for v in range(len(group)):
                q = [all_specs[v][k][r].quantity(util, all_values[v][k][r]) for k in (0, 1)]
                c.synchronize_vector_interfaces(q[0], q[1])
                got[v][0][r], got[v][1][r] = q[0].data, q[1].data
        return run

    w = run_world(lay.total, [rank_fn(r) for r in range(lay.total)], copies, mode=mode)
    rec.executions += 1
    rec.transitions += w.n_steps
    v = verdict(w)
    if v is not None:
        raise v
    for v in range(len(group)):
        for c in (0, 1):
            for r in range(lay.total):
                if not same(got[v][c][r], expected[v][c][r]):
                    raise Violation(
                        f"{'xy'[c]} component of {group[v]} (order {order}) wrong on rank {r}: "
                        + first_diff(got[v][c][r], expected[v][c][r])
                    )
    rec.sample({"layout": lay.n_sub, "nx": lay.nx, "order": order, "group": group})
