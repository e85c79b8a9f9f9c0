"""C13: a Zarr store written in parallel holds every rank's data at every time."""
import datetime
import itertools

import cftime
import numpy as np
import zarr

from mc import load
from mc.core import Violation, progress
from mc.explore import Explorer, POLICIES
from mc.fields import KINDS, Spec, same
from mc.props.c07 import block
from mc.zstore import SharedStore

ID = "C13"
LEVEL = "model_checking"
RULE = (
    "a case is one history of states (layout, variables with dimension orders, staggerings, dtypes, memory layouts, "
    "names sorting before and after 'time', calendar, 1 to 3 times) under one MPI semantics; all interleavings of the "
    "ranks' store accesses and collectives are explored up to partial-order equivalence (store accesses to one key are "
    "dependent unless both read) or, in deviation cases, all schedules within the stated number of deviations; after "
    "every execution each point of every variable, time and tile is compared"
)
ASSUMPTIONS = [
    "the store's individual get/set/delete operations are atomic and immediately visible to all ranks",
    "every variable has both horizontal dimensions",
    "points shared by ranks may come from any rank holding them",
]
START = {
    "julian": cftime.DatetimeJulian(2016, 8, 1, 0, 15),
    "noleap": cftime.DatetimeNoLeap(2015, 12, 31, 23, 59, 59, 500000),
    "360_day": cftime.Datetime360Day(2000, 2, 30),
    "proleptic": cftime.DatetimeProlepticGregorian(1999, 12, 31, 12),
    "gregorian": cftime.DatetimeGregorian(2020, 2, 28, 6, 30, 1, 123456),
}
STEPS = [datetime.timedelta(0), datetime.timedelta(seconds=37), datetime.timedelta(days=400, hours=1)]


def steps(cal):
    """Whole seconds in two calendars, fractions in the others."""
    if cal in ("julian", "360_day"):
        return STEPS
    return [STEPS[0], STEPS[1] + datetime.timedelta(microseconds=250001), STEPS[2] + datetime.timedelta(microseconds=999998)]
NAMES = ("air", "zonal", "Upper", "time2", "x_wind")
EXTRAS = ((), ("z",), ("z_interface",), ("z", "member"))
DTYPES = ("f8", "f4", "i4", "i8", "?", "i2")
Z = {"z": 2, "z_interface": 3, "member": 2}


def dim_lists():
    out = []
    for yi, xi in itertools.product((0, 1), (0, 1)):
        h = ("y_interface" if yi else "y", "x_interface" if xi else "x")
        for ex in EXTRAS:
            out += [list(p) for p in itertools.permutations(h + ex)]
    return out


def jobs(tier, seed):
    out = []
    deep = tier == "thorough"
    layouts = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3)] + ([(4, 1), (1, 5)] if deep else [])
    for l in layouts:
        n = 6 * l[0] * l[1]
        parts = {6: 2, 12: 4, 18: 4, 24: 6}.get(n, 8)
        for k in range(parts):
            out.append({"layout": list(l), "what": "dpor", "part": k, "parts": parts, "weight": n})
    for l in [(1, 1)] + ([(1, 2)] if deep else []):
        parts = 4 if l == (1, 1) else 16
        for shard in range(parts):
            for pol in POLICIES if deep and l == (1, 1) else ("stay", "rr"):
                out.append({"layout": list(l), "what": "dev", "pol": pol, "part": shard, "parts": parts, "weight": 200})
    for k, cal in enumerate(START):
        if deep or k in (0, 4):
            out.append({"layout": [1, 1], "what": "long", "cal": cal, "times": 3100 if deep else 1060, "weight": 300})
    return out


class Var:
    def __init__(self, name, layout, dims, m, k, n):
        self.name, self.dims, self.layout, self.m = name, tuple(dims), layout, m
        per = layout[0] * layout[1]
        self.specs = []
        for r in range(n):
            size = {d: (m[0] + (d == "y_interface") if d[0] == "y" else m[1] + (d == "x_interface") if d[0] == "x" else Z[d])
                    for d in dims}
            pad = (k + r % 2) % 3
            h = {d: pad if d[0] in "xy" else (k % 5 == 0) * 1 for d in dims}
            self.specs.append(Spec(dims, size, h, h, DTYPES[k % 6], KINDS[(k + r) % 6], ("m", "K s-1", "")[k % 3]))
        self.tile_shape = tuple(
            (layout[0] * m[0] + (d == "y_interface")) if d[0] == "y" else
            (layout[1] * m[1] + (d == "x_interface")) if d[0] == "x" else Z[d] for d in dims)
        self.blocks = [(r // per, block(dims, layout, m, r % per)) for r in range(n)]

    def values(self, t, r, salt):
        base = (t * 97 + r) * 5000
        return self.specs[r].values(base, salt)

    def check(self, group, times, n, salt):
        a = group[self.name]
        if a.shape != (len(times), 6) + self.tile_shape:
            raise Violation(f"{self.name}{self.dims}: stored shape {a.shape}, expected {(len(times), 6) + self.tile_shape}")
        if a.dtype != self.specs[0].dtype:
            raise Violation(f"{self.name}: stored dtype {a.dtype}, expected {self.specs[0].dtype}")
        attrs = dict(a.attrs)
        if list(attrs.get("_ARRAY_DIMENSIONS", ())) != ["time", "tile"] + list(self.specs[0].names) or attrs.get("units") != self.specs[0].units:
            raise Violation(f"{self.name}{self.dims}: stored attributes {attrs}")
        got = a[...]
        for t in range(len(times)):
            ok = np.zeros((6,) + self.tile_shape, dtype=bool)
            for r in range(n):
                tile, b = self.blocks[r]
                mine = self.specs[r].compute(self.values(t, r, salt))
                ok[(tile,) + b] |= got[(t, tile) + b] == mine
            if not ok.all():
                i = tuple(int(v) for v in np.argwhere(~ok)[0])
                raise Violation(
                    f"{self.name}{self.dims} layout {self.layout} time {t}: point {i} holds {got[(t,) + i]!r}, "
                    f"which no owner stored ({(~ok).sum()} wrong)")


def check_time(group, times):
    a = group["time"]
    if a.shape != (len(times),):
        raise Violation(f"time has shape {a.shape}, expected {(len(times),)}")
    attrs = dict(a.attrs)
    if list(attrs.get("_ARRAY_DIMENSIONS", ())) != ["time"]:
        raise Violation(f"time attributes {attrs}")
    dec = cftime.num2date(a[...], attrs["units"], attrs["calendar"])
    want_cal = times[0].calendar
    for k, (g, t) in enumerate(zip(np.atleast_1d(dec), times)):
        if g != t or g.calendar != want_cal:
            raise Violation(f"time {k} decodes to {g!r}, stored {t!r}")


def histories(layout, tier):
    """Covering family: every dimension list occurs as every role."""
    lists = dim_lists()
    k = 0
    for i in range(8):  # sizes of real use
        dims = lists[(i * 23 + 5 + layout[0]) % len(lists)]
        yield dict(vars=[("air", dims, i), ("zonal", lists[(i * 11 + 2) % len(lists)], i + 3)][: 1 + i % 2],
                   m=((70, 3), (3, 100), (48, 48), (130, 2))[i % 4], n_times=2, cal=list(START)[i % 5], coll=("loose", "sync")[i % 2], sign=1)
    for i, dims in enumerate(lists):
        k += 1
        nv = (1, 2, 2)[i % 3]
        vs = []
        for j in range(nv):
            d = lists[(i + j * 17) % len(lists)]
            vs.append((NAMES[(i + j * (1 + i % 3)) % 5], d, k + j))
        yield dict(vars=vs, m=((2, 2), (1, 2), (2, 1), (3, 2), (1, 1))[i % 5], n_times=(2, 3, 1, 2)[i % 4],
                   cal=list(START)[i % 5], coll=("loose", "sync")[(i // 2) % 2], sign=(1, 1, 0, -1, 1, -1)[i % 6])


def long_history(job, rec):
    """One rank stores many more times than an array chunk holds; all is compared at several lengths."""
    util = load.util()
    part = util.CubedSpherePartitioner(util.TilePartitioner((1, 1)))
    specs = {"air": Spec(("y", "x"), {"y": 2, "x": 1}, {}, {}, "f8"), "zonal": Spec(("y", "x_interface"), {"y": 1, "x_interface": 2}, {}, {}, "i4")}
    step = datetime.timedelta(hours=1, microseconds=3)

    def go(names):
        store = {}
        mon = util.ZarrMonitor(store, part)
        times = []
        for t in range(job["times"]):
            times.append(START[job["cal"]] + step * t)
            mon.store({**{n: specs[n].quantity(util, specs[n].values(7 * t, 0)) for n in names}, "time": times[-1]})
            rec.transitions += 1
            progress()
            if t + 1 not in (10, 100, 128, 256, 512, 1000, 1023, 1024, 1025, 2048, 2049, job["times"]):
                continue
            rec.states += 1
            group = zarr.open_group(dict(store), mode="r")
            check_time(group, times)
            for n in names:
                a = group[n]
                if a.shape[0] != t + 1:
                    raise Violation(f"{n} has shape {a.shape} after {t + 1} stores")
                got = a[:, 0]
                for i in range(t + 1):
                    if not same(got[i], specs[n].compute(specs[n].values(7 * i, 0))):
                        raise Violation(f"after {t + 1} stores {n} holds {got[i]} at time {i}")

    for names in ((), ("air",), ("zonal", "air")):
        rec.case({"what": "long", "cal": job["cal"], "times": job["times"], "names": names}, lambda: go(names))
        rec.executions += 1


def run_job(job, rec):
    if job["what"] == "long":
        return long_history(job, rec)
    layout = tuple(job["layout"])
    n = 6 * layout[0] * layout[1]
    copies = load.copies(n)
    allh = list(histories(layout, job["tier"]))
    if job["what"] == "dpor":
        for i, h in enumerate(allh):
            if i % job["parts"] != job["part"]:
                continue
            if job["tier"] == "quick" and n > 12 and (i // job["parts"]) % (3 if n <= 24 else 9) != job["part"] % 3:
                continue
            explore(rec, job, layout, n, copies, h, "dpor", None)
    else:
        h = dict(vars=[("air", ["y", "x"], 0), ("zonal", ["x_interface", "z", "y"], 1)], m=(2, 1), n_times=2, cal="julian", coll="loose")
        if job["tier"] == "thorough" and n == 6:
            explore(rec, job, layout, n, copies, h, "dev", job["pol"])
        h = dict(h, vars=h["vars"][1:], coll="sync" if n == 6 else "loose")
        explore(rec, job, layout, n, copies, h, "dev", job["pol"])


counter = [0]


def explore(rec, job, layout, n, copies, h, how, pol):
    salt = job["seed"]
    times = [START[h["cal"]] + h.get("sign", 1) * sum(steps(h["cal"])[1 : k + 1], STEPS[0]) for k in range(h["n_times"])]
    key = {"layout": layout, "how": how, "pol": pol, "shard": job["part"] if how == "dev" else None,
           **{k: v for k, v in h.items()}}

    def go():
        vs = [Var(name, layout, d, h["m"], k, n) for name, d, k in h["vars"]]

        def build():
            counter[0] += 1
            store = SharedStore(("c13", counter[0]))

            def rank_fn(r):
                def f(comm):
                    util = copies[r].util
                    part = util.CubedSpherePartitioner(util.TilePartitioner(layout))
                    mon = util.ZarrMonitor(store, part, mode="w", mpi_comm=comm)
                    for t, time in enumerate(times):
                        state = {}
                        names = [v.name for v in vs]
                        if (r + t) % 2:
                            names.reverse()
                        for v in vs:
                            state[v.name] = v.specs[r].quantity(util, v.values(t, r, salt))
                        before = {v.name: state[v.name].data.copy() for v in vs}
                        state["time"] = time
                        mon.store(state)
                        for name, b in before.items():
                            if not same(state[name].data, b):
                                raise Violation(f"storing modified {name}")
                return f

            def check(w):
                from mc import zstore

                zstore._stores.pop(store.ident, None)
                if store.listed_late:
                    rec.cap("listing raced with writes: listings are treated as independent of them")
                group = zarr.open_group(dict(store.data), mode="r")
                arrays = set(group.array_keys())
                if arrays != {v.name for v in vs} | {"time"}:
                    raise Violation(f"stored arrays {sorted(arrays)}")
                for v in vs:
                    v.check(group, times, n, salt)
                check_time(group, times)
                return "ok"

            return [rank_fn(r) for r in range(n)], check

        ex = Explorer(n, build, copies, coll=h["coll"], cap=400 if n <= 12 else 100 if n <= 24 else 20)
        try:
            if how == "dpor":
                ex.dpor()
            else:
                ex.cap = None
                ex.deviations(base=pol, bound=1, shard=(job["part"], job["parts"]))
        finally:
            rec.executions += ex.executions
            rec.transitions += ex.transitions
            rec.states += ex.states
            rec.traces += ex.executions
            if ex.capped:
                rec.cap("execution cap reached in partial-order exploration")

    rec.case(key, go)
    rec.sample(key)
