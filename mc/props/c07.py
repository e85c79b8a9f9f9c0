"""C07: scatter and gather move every point to its place and nothing else."""
import itertools

import numpy as np

from mc import load
from mc.core import Violation
from mc.explore import run_world, verdict, policy, POLICIES
from mc.fields import Spec, same, first_diff, KINDS

ID = "C07"
LEVEL = "exploration"
RULE = (
    "every (tile or cube communicator, layout, ordered dimension list, staggering) with a covering family of "
    "dtypes, memory layouts, halo offsets, receive modes and call sequences, executed by all ranks; every storage "
    "element of every quantity compared; distinct = distinct (system, layout, dims, operation sequence)"
)
ASSUMPTIONS = [
    "the receiving quantity has the dtype and dimension order of the sent one",
    "gathered interface points shared by ranks may come from any rank holding them",
]
EXTRAS = ((), ("z",), ("z_interface",), ("z", "member"))
DTYPES = ("f8", "f4", "i4", "i8", "?", "i2", "c16")
Z = {"z": 2, "z_interface": 3, "member": 2}
SIZES = ((2, 2), (1, 2), (2, 1), (3, 2), (1, 1), (2, 3))


def dim_lists():
    out = []
    for yi, xi in itertools.product((0, 1), (0, 1)):
        h = ("y_interface" if yi else "y", "x_interface" if xi else "x")
        for ex in EXTRAS:
            out += [list(p) for p in itertools.permutations(h + ex)]
    return out


def jobs(tier, seed):
    out = []
    deep = tier == "thorough"
    layouts = [(a, b) for a in (1, 2, 3) for b in (1, 2, 3)] + [(1, 4), (4, 1)] + ([(4, 3), (2, 5)] if deep else [])
    for l in layouts:
        out.append({"sys": "tile", "layout": list(l), "part": 0, "parts": 1, "weight": 3 * l[0] * l[1]})
    if not deep:
        out.append({"sys": "cube", "layout": [1, 7], "part": 0, "parts": 24, "weight": 60})
        out.append({"sys": "cube", "layout": [3, 3], "part": 1, "parts": 24, "weight": 60})
    for l in ((1, 1), (1, 2), (2, 1), (2, 2)) + (((1, 3), (3, 2)) if deep else ()):
        parts = l[0] * l[1] * 2
        for k in range(parts):
            out.append({"sys": "cube", "layout": list(l), "part": k, "parts": parts, "weight": 60})
    for l in ((1, 1), (2, 1), (1, 7), (3, 3)) + (((2, 3), (8, 1), (12, 1)) if deep else ()):
        parts = 16 if l[0] * l[1] < 4 else 40
        for k in range(min(parts, 2)):
            out.append({"sys": "tiles", "layout": list(l), "part": k * 3, "parts": parts, "weight": 60})
    return out


def run_job(job, rec):
    layout = tuple(job["layout"])
    n = layout[0] * layout[1] * (1 if job["sys"] == "tile" else 6)
    copies = load.copies(n)
    lists = dim_lists()[job["part"] :: job["parts"]]
    reps = 6 if job["tier"] == "thorough" else 3
    k = job["part"]
    for li, dims in enumerate(lists):
        if job["tier"] == "quick" and n > 24 and li % 2:
            continue
        if job["tier"] == "quick" and n == 24 and len(dims) == 4 and li % 3:
            continue
        for rep in range(reps if n <= 12 else max(1, reps // 2)):
            k += 1
            ops = []
            for a in range(5):
                z = k * 5 + a
                ops.append({
                    "op": ("scatter", "gather")[(z + rep) % 2] if a else ("gather", "scatter")[k % 2],
                    "dtype": DTYPES[(k + a // 2) % 7],  # neighbours share dtypes: pooled buffers recur
                    "send": (KINDS + ("mixed",))[(k + 3 * a) % 7],
                    "recv": ((None,) + KINDS)[(2 * k + a) % 7],
                    "pad": (k + a) % 3,
                    # a third of the histories keep one size (buffers recur), the others change the
                    # horizontal size or the number of levels between operations
                    "size": SIZES[(k // 2 + a * (k % 3 == 1)) % 6],
                    "levels": a % 3 if k % 3 == 2 else 0,
                    "swap": k % 4 == 3 and a % 2 == 1,
                    "scramble": (k + a) % 2,
                })
            if k % 4 in (0, 2):  # the same operation several times: every result is a quantity of its own
                ops[0]["recv"] = None
                ops[2], ops[4] = dict(ops[0]), dict(ops[0])
            if k % 9 == 4:  # large messages among small ones
                ops[1]["size"] = ops[3]["size"] = (64, 72)
                if k % 2:
                    ops[0]["size"] = ops[4]["size"] = (40, 24)
            coll = ("loose", "sync")[k % 2]
            pol = POLICIES[k % 4]
            key = {"sys": job["sys"], "layout": layout, "dims": dims, "ops": ops, "coll": coll}
            rec.case(key, lambda: one(rec, job["sys"], layout, n, copies, dims, ops, coll, pol, job["seed"]))
    rec.sample({"system": job["sys"], "layout": layout, "dims": lists[-1], "ops": ops})


def lengths(dims, ny, nx, more=0):
    return {d: (ny + (d == "y_interface") if d[0] == "y" else nx + (d == "x_interface") if d[0] == "x" else Z[d] + more)
            for d in dims}


def pads(dims, pad, r):
    lo = {d: (pad + (r + i) % 2) if d[0] in "xy" and pad else (1 if pad == 2 else 0) for i, d in enumerate(dims)}
    hi = {d: (pad + i % 2) if d[0] in "xy" and pad else (1 if pad == 2 else 0) for i, d in enumerate(dims)}
    return lo, hi


def block(dims, layout, m, r):
    j, i = divmod(r, layout[1])
    out = []
    for d in dims:
        if d[0] in "yx":
            k, s = (j, m[0]) if d[0] == "y" else (i, m[1])
            out.append(slice(k * s, (k + 1) * s + int(d.endswith("interface"))))
        else:
            out.append(slice(None))
    return tuple(out)


class Item:
    """One operation: its quantities' specs, values and the model's verdict."""

    def __init__(self, system, layout, n, dims, op, base, salt):
        self.system, self.layout, self.n, self.op = system, layout, n, op
        self.dims = dims = tuple(reversed(dims)) if op.get("swap") else tuple(dims)
        self.gdims = (("tile",) if system == "cube" else ()) + self.dims
        m = op["size"]
        per = layout[0] * layout[1]
        gl = lengths(dims, layout[0] * m[0], layout[1] * m[1], op.get("levels", 0))
        gl["tile"] = 6
        rl = lengths(dims, *m, op.get("levels", 0))
        kind = op["send"] if op["send"] != "mixed" else None
        self.units = "kg m^-2 s^-1" if op["pad"] == 1 else "m"
        glob_pad = pads(dims, (op["pad"] + (op["op"] == "scatter")) % 3, 0)
        gk = (kind or "F") if op["op"] == "scatter" else (op["recv"] or "C")
        self.gspec = Spec(self.gdims, gl, *glob_pad, op["dtype"], gk, self.units)
        self.rspecs = []
        for r in range(n):
            rk = (kind or KINDS[r % 6]) if op["op"] == "gather" else (op["recv"] or "C")
            self.rspecs.append(Spec(self.dims, rl, *pads(dims, op["pad"], r), op["dtype"], rk, self.units))
        self.gvals = self.gspec.values(base, salt)
        base += self.gspec.size
        self.rvals = []
        for s in self.rspecs:
            self.rvals.append(s.values(base, salt))
            base += s.size
        self.top = base
        self.blocks = []
        for r in range(n):
            t, rr = divmod(r, per)
            b = block(dims, layout, m, rr)
            self.blocks.append(((t,) + b) if system == "cube" else b)

    def run(self, util, comm, r):
        """Executes on rank r; returns a record to be compared at the end."""
        rec = {}
        root = r == 0
        op = self.op
        if op["op"] == "scatter":
            send = self.gspec.quantity(util, self.gvals) if root else None
            recv = self.rspecs[r].quantity(util, self.rvals[r]) if op["recv"] else None
            if recv is None:
                out = comm.scatter(send) if root else comm.scatter()
            else:
                out = comm.scatter(send, recv_quantity=recv)
        else:
            send = self.rspecs[r].quantity(util, self.rvals[r])
            recv = self.gspec.quantity(util, self.gvals) if (op["recv"] and root) else None
            out = comm.gather(send, recv_quantity=recv) if recv is not None else comm.gather(send)
        rec["same"] = recv is None or out is recv
        if send is not None:
            rec["send"] = (send, send.data.copy(), tuple(send.dims), send.units, tuple(send.origin), tuple(send.extent))
            if op["scramble"]:
                send.data[...] = np.zeros((), send.data.dtype)
        rec["out"] = out
        return rec

    def check(self, r, rec):
        op, root = self.op, r == 0
        name = f"{self.system} {op['op']} {self.gdims} layout {self.layout} rank {r}"
        if not rec["same"]:
            raise Violation(f"{name}: the supplied quantity is not the one returned")
        if "send" in rec:
            q, data, dims, units, origin, extent = rec["send"]
            s = self.gspec if op["op"] == "scatter" else self.rspecs[r]
            v = self.gvals if op["op"] == "scatter" else self.rvals[r]
            if not same(data, v) or (dims, units, origin, extent) != (s.names, s.units, s.origin, s.extent):
                raise Violation(f"{name}: the sent quantity was modified")
            if not op["scramble"] and not same(q.data, v):
                raise Violation(f"{name}: the sent quantity was modified later")
        out = rec["out"]
        if op["op"] == "gather" and not root:
            if out is not None:
                raise Violation(f"{name}: expected None on other ranks")
            return
        spec = self.rspecs[r] if op["op"] == "scatter" else self.gspec
        init = self.rvals[r] if op["op"] == "scatter" else self.gvals
        if tuple(out.dims) != spec.names or out.units != spec.units or tuple(out.extent) != spec.extent:
            raise Violation(f"{name}: metadata {out.dims} {out.units} {out.extent}, expected {spec.names} {spec.units} {spec.extent}")
        if op["op"] == "scatter":
            want = self.gspec.compute(self.gvals)[self.blocks[r]]
            if op["recv"]:
                full = init.copy()
                full[tuple(slice(o, o + e) for o, e in zip(spec.origin, spec.extent))] = want
                if not same(out.data, full):
                    raise Violation(f"{name}: " + first_diff(out.data, full))
            elif not same(out.view[:], want):
                raise Violation(f"{name}: " + first_diff(out.view[:], want))
            return
        got = out.view[:]
        if got.dtype != spec.dtype or got.shape != spec.extent:
            raise Violation(f"{name}: gathered {got.dtype} {got.shape}")
        ok = np.zeros(spec.extent, dtype=bool)
        for k in range(self.n):
            b = self.blocks[k]
            ok[b] |= got[b] == self.rspecs[k].compute(self.rvals[k])
        if not ok.all():
            i = tuple(int(v) for v in np.argwhere(~ok)[0])
            raise Violation(f"{name}: point {i} holds {got[i]!r}, which no owner sent ({(~ok).sum()} wrong)")
        if op["recv"]:
            a, b = out.data.copy(), init.copy()
            sl = tuple(slice(o, o + e) for o, e in zip(spec.origin, spec.extent))
            a[sl] = b[sl] = np.zeros((), a.dtype)
            if not same(a, b):
                raise Violation(f"{name}: points outside the compute domain changed: " + first_diff(a, b))


def make_comm(util, system, layout, comm):
    tile = util.TilePartitioner(layout)
    if system == "cube":
        return util.CubedSphereCommunicator(comm, util.CubedSpherePartitioner(tile))
    if system == "tiles":  # the six tile communicators of a cube, all at work
        return util.CubedSphereCommunicator(comm, util.CubedSpherePartitioner(tile)).tile
    return util.TileCommunicator(comm, tile)


def one(rec, system, layout, n, copies, dims, ops, coll, pol, seed):
    items, base = [], 0
    groups = 6 if system == "tiles" else 1
    per = n // groups
    for op in ops:
        items.append([])
        for _ in range(groups):
            it = Item("tile" if groups > 1 else system, layout, per, dims, op, base, seed)
            base = it.top
            items[-1].append(it)
    got = [[None] * n for _ in items]

    def rank_fn(r):
        def run(comm):
            util = copies[r].util
            c = make_comm(util, system, layout, comm)
            for k, it in enumerate(items):
                got[k][r] = it[r // per].run(util, c, r % per)
        return run

    w = run_world(n, [rank_fn(r) for r in range(n)], copies, coll=coll, chooser=policy(pol))
    rec.executions += 1
    rec.transitions += w.n_steps
    v = verdict(w)
    if v is not None:
        raise v
    for k, it in enumerate(items):
        for r in range(n):
            it[r // per].check(r % per, got[k][r])
