"""C14: stored Zarr history is append-only and survives rejected or interrupted stores."""
import itertools
import os
import shutil
import tempfile

import numpy as np
import zarr

from mc import load
from mc.core import Violation
from mc.explore import Explorer, POLICIES
from mc.fields import Spec, same
from mc.props.c13 import DTYPES, Var, START, check_time, dim_lists, steps
from mc.zstore import SharedStore, _stores

ID = "C14"
LEVEL = "model_checking"
RULE = (
    "a case is one history of up to 4 stores (the first valid, each later one valid or of one rejected kind) executed "
    "by all ranks under one MPI semantics and base schedule; the store's contents after every single modification (all "
    "crash points) are reopened and every time completed by all ranks is compared point by point, as is the whole group "
    "after every rejection and at the end; or two monitors in turn on one store (in memory, on disk), opened in every pair of modes; states counts the distinct intermediate store contents checked"
)
ASSUMPTIONS = [
    "individual get/set/delete operations of the store are atomic; a crash loses everything in memory and nothing written",
    "all ranks hand in states of the same kind (a state is rejected on all ranks or on none)",
]
BAD = ("missing", "extra", "units0", "units1", "dims0", "dims1", "extent0", "extent1", "calendar", "no_time", "renamed", "empty", "only_time")
BARE = ("extra", "empty", "calendar", "no_time")  # for states that hold a time only
TIMELINES = ((0, 1, 2, 3, 4), (0, -1, -3, 2, -2), (0, 0, 0, 0, 0), (0, 90000, 1, 180000, -90000), (0, -90000, 90000, -1, 0))
NAMES = (("air", "zonal"), ("u", "v"), ("a", "b"), ("x_wind", "Upper"))


def jobs(tier, seed):
    out = []
    deep = tier == "thorough"
    layouts = [(1, 1), (1, 2), (2, 1)] + ([(2, 2), (1, 3)] if deep else [])
    for l in layouts:
        parts = 8 if l == (1, 1) or deep else 6
        for k in range(parts):
            out.append({"layout": list(l), "part": k, "parts": parts, "weight": l[0] * l[1]})
    return out + [{"what": "modes", "layout": [1, 1], "weight": 5}]


def sequences(deep):
    out = [("ok",), ("ok", "ok"), ("ok", "ok", "ok")]
    for b in BAD:
        out += [("ok", b), ("ok", b, "ok"), ("ok", "ok", b, "ok")]
        for b2 in BAD:
            out.append(("ok", b, b2, "ok"))
            if deep:
                out += [("ok", b, "ok", b2, "ok"), ("ok", b, "ok", "ok"), ("ok", "ok", b, b2, "ok", "ok")]
    return out


def run_job(job, rec):
    if job.get("what") == "modes":
        return modes(job, rec)
    layout = tuple(job["layout"])
    n = 6 * layout[0] * layout[1]
    copies = load.copies(n)
    lists = dim_lists()
    deep = job["tier"] == "thorough"
    for i, seq in enumerate(sequences(deep)):
        if i % job["parts"] != job["part"]:
            continue
        if n > 6 and not deep and len(seq) == 4 and seq[1] != "ok" and i % 3:
            continue
        if n > 12 and len(seq) >= 4 and seq[1] != "ok" and (i // job["parts"]) % 4:
            continue
        for rep in range(2 if deep and n == 6 else 1):
            k = i + rep * 31
            names = NAMES[k % 4]
            vs = [(names[0], lists[(7 * k) % len(lists)], k), (names[1], lists[(11 * k + 5) % len(lists)], k + 1)]
            h = dict(seq=seq, vars=vs, m=((2, 2), (1, 2), (2, 1))[k % 3], cal=list(START)[k % 5],
                     coll=("loose", "sync")[k % 2], line=k % 5, pol=POLICIES[(k // 2) % 4])
            history(rec, job, layout, n, copies, h)
    if job["part"] == 0:
        for k, (b, b2) in enumerate(itertools.product(BARE, BARE)):
            history(rec, job, layout, n, copies, dict(
                seq=("ok", b, "ok", b2, "ok"), vars=[], m=(2, 2), cal=list(START)[k % 5], coll=("loose", "sync")[k % 2],
                line=k % 5, pol=POLICIES[k % 4]))


MODES = ("default", "w", "w-", "a", "r+", "r")


def modes(job, rec):
    """Two monitors one after the other on one store, opened in every pair of modes."""
    util = load.util()
    part = util.CubedSpherePartitioner(util.TilePartitioner((1, 1)))
    dims = (("y", "x"), ("z", "y_interface", "x"), ("x_interface", "y"))

    def opened(store, mode):
        return util.ZarrMonitor(store, part) if mode == "default" else util.ZarrMonitor(store, part, mode=mode)

    def specs(names, salt):
        return {n: Spec(dims[i % 3], {"x": 2, "y": 3, "z": 2, "y_interface": 4, "x_interface": 3}, {}, {}, DTYPES[(salt + i) % 6])
                for i, n in enumerate(names)}

    def keep(mon, names, count, base):
        times = [START["julian"] + steps("julian")[1] * (t + base) for t in range(count)]
        for t, time in enumerate(times):
            state = {n: s.quantity(util, s.values(base + 50 * t, base)) for n, s in specs(names, base).items()}
            mon.store({**state, "time": time})
        return times

    def holds(store, names, times, base, what):
        group = zarr.open_group(store, mode="r")
        if set(group.array_keys()) != set(names) | {"time"}:
            raise Violation(f"{what}: the store holds {sorted(group.array_keys())}, expected {sorted(names)}")
        check_time(group, times)
        for n, s in specs(names, base).items():
            a = group[n]
            for t in range(len(times)):
                if a.shape[0] != len(times) or not same(a[t, 0], s.compute(s.values(base + 50 * t, base))):
                    raise Violation(f"{what}: {n} at time {t} of {a.shape} holds {a[t, 0]}")

    def contents(store):
        if isinstance(store, dict):
            return dict(store)
        return {os.path.relpath(os.path.join(d, f), store): open(os.path.join(d, f), "rb").read()
                for d, _, fs in os.walk(store) for f in fs}

    def go(kind, first, n1, second, names2, n2):
        scratch = tempfile.mkdtemp(prefix="verif-c14-", dir=os.environ.get("VERIF_TMP"))
        try:
            store = {} if kind == "memory" else os.path.join(scratch, "store.zarr")
            names1 = ("b", "air")
            mon = opened(store, first)
            times = keep(mon, names1, n1, 1)
            if n1:
                holds(store, names1, times, 1, f"mode {first}")
            before = contents(store)
            what = f"{n1} times in mode {first}, then mode {second}"
            try:
                mon2 = opened(store, second)
            except Exception as e:  # noqa: B902
                if second != "w-":
                    raise Violation(f"{what}: {e!r}")
                if contents(store) != before:
                    raise Violation(f"{what}: refused, but the store was changed")
                return
            if second == "w-":
                raise Violation(f"{what}: an existing store was accepted")
            if second in ("a", "r+", "r") and contents(store) != before:
                raise Violation(f"{what}: opening changed the store")
            try:
                times2 = keep(mon2, names2, n2, 7)
            except Exception as e:  # noqa: B902
                if second in ("default", "w") or (second in ("a", "r+") and n1 == 0):
                    raise Violation(f"{what}: storing fails with {e!r}")
                if n1:
                    group = zarr.open_group(store, mode="r")
                    check_time(group, times)
                    for n, s in specs(names1, 1).items():
                        for t in range(n1):
                            if group[n].shape[0] != n1 or not same(group[n][t, 0], s.compute(s.values(1 + 50 * t, 1))):
                                raise Violation(f"{what}: stored data changed")
                if second == "r" and contents(store) != before:
                    raise Violation(f"{what}: a store opened for reading was changed")
                return
            if n2 and second == "r":
                raise Violation(f"{what}: stored into a store opened for reading")
            if n2 and (second in ("default", "w") or n1 == 0):
                holds(store, names2, times2, 7, what)
        finally:
            shutil.rmtree(scratch)

    for kind, first, n1, second, names2, n2 in itertools.product(
            ("memory", "disk"), ("default", "w", "w-", "a"), (0, 1, 3), MODES, (("b", "air"), ("air",), ("zonal", "b", "Upper")), (0, 1, 2)):
        key = {"kind": kind, "first": first, "n1": n1, "second": second, "names": names2, "n2": n2}
        rec.case(key, lambda: go(kind, first, n1, second, names2, n2))
        rec.executions += 1


counter = [0]


def make_state(util, vs, t, r, salt, time):
    state = {v.name: v.specs[r].quantity(util, v.values(t, r, salt)) for v in vs}
    state["time"] = time
    return state


def spoil(util, state, kind, names, other_calendar):
    """Turn a valid state into one of a rejected kind."""
    def changed(q, **kw):
        a = dict(dims=q.dims, units=q.units, origin=q.origin, extent=q.extent)
        data = kw.pop("data", q.data)
        a.update(kw)
        return util.Quantity(data, **a)

    def resized(q):
        ax = [i for i, d in enumerate(q.dims) if d[0] in "xy"][-1]
        shape = list(q.extent)
        shape[ax] += 1
        return util.Quantity(np.ones(shape, q.data.dtype), q.dims, q.units)

    if kind == "empty":
        state.clear()
        return state
    if kind == "only_time":
        for name in names:
            del state[name]
        return state
    if kind == "extra":
        state["extra"] = util.Quantity(np.ones((2, 2)), ["y", "x"], "m")
        return state
    if kind == "no_time":
        del state["time"]
        return state
    if kind == "calendar":
        state["time"] = other_calendar
        return state
    a, b = sorted(names)
    if kind == "missing":
        del state[b]
    elif kind == "renamed":
        state["other"] = state.pop(a)
    elif kind.startswith("units"):
        k = (a, b)[int(kind[-1])]
        state[k] = changed(state[k], units="furlong")
    elif kind.startswith("dims"):
        k = (a, b)[int(kind[-1])]
        q = state[k]
        state[k] = q.transpose(q.dims[1:] + q.dims[:1])
    elif kind.startswith("extent"):
        k = (a, b)[int(kind[-1])]
        state[k] = resized(state[k])
    return state


def verify(data, vs, times, n, salt, done, what, exact):
    """All variables hold the first `done` times (and nothing else if `exact`)."""
    group = zarr.open_group(dict(data), mode="r")
    for v in vs:
        a = group[v.name]
        if exact:
            v.check(group, times[:done], n, salt)
            continue
        if a.shape[0] < done or a.shape[1:] != (6,) + v.tile_shape:
            raise Violation(f"{what}: {v.name} has shape {a.shape} although {done} times were stored")
        got = a[:done]
        for t in range(done):
            ok = np.zeros((6,) + v.tile_shape, dtype=bool)
            for r in range(n):
                tile, b = v.blocks[r]
                ok[(tile,) + b] |= got[(t, tile) + b] == v.specs[r].compute(v.values(t, r, salt))
            if not ok.all():
                i = tuple(int(x) for x in np.argwhere(~ok)[0])
                raise Violation(f"{what}: {v.name} at stored time {t} now holds {got[(t,) + i]!r} at {i}")
    if exact:
        check_time(group, times[:done])
    else:
        import cftime

        a = group["time"]
        if a.shape[0] < done:
            raise Violation(f"{what}: time has shape {a.shape} although {done} times were stored")
        dec = np.atleast_1d(cftime.num2date(a[:done], a.attrs["units"], a.attrs["calendar"]))
        if list(dec) != times[:done] or any(d.calendar != times[0].calendar for d in dec):
            raise Violation(f"{what}: stored times now decode to {list(dec)}")


def history(rec, job, layout, n, copies, h):
    salt = job["seed"]
    seq = h["seq"]
    start = START[h["cal"]]
    other = [s for c, s in START.items() if s.calendar != start.calendar][0]
    good = [k for k, s in enumerate(seq) if s == "ok"]
    step = steps(h["cal"])[1]
    times = [start + step * TIMELINES[h["line"]][i] for i in range(len(good))]
    key = {"layout": layout, **h}

    def go():
        vs = [Var(name, layout, d, h["m"], k, n) for name, d, k in h["vars"]]
        names = [v.name for v in vs]

        def build():
            counter[0] += 1
            completed = [0] * n
            store = Log(("c14", counter[0]), completed)
            ended_with_rejection = []

            def rank_fn(r):
                def f(comm):
                    util = copies[r].util
                    part = util.CubedSpherePartitioner(util.TilePartitioner(layout))
                    mon = util.ZarrMonitor(store, part, mode="w", mpi_comm=comm)
                    t = 0
                    for kind in seq:
                        time = times[min(t, len(times) - 1)]
                        if kind != "ok" and h["line"] % 2:
                            time = time - step * 1000
                        state = make_state(util, vs, t, r, salt, time)
                        if kind == "ok":
                            mon.store(state)
                            t += 1
                            completed[r] = t
                        else:
                            spoil(util, state, kind, names, other)
                            try:
                                mon.store(state)
                            except Exception:
                                pass
                            else:
                                raise Violation(f"a state of kind {kind!r} was accepted as store {t}")
                return f

            def check(w):
                _stores.pop(store.ident, None)
                last = None
                for i, (op, done, data) in enumerate(store.log):
                    if done == 0 or data == last:
                        continue
                    last = data
                    rec.states += 1
                    rec.count("crash_points")
                    verify(data, vs, times, n, salt, done, f"after write {i} ({op})", False)
                final = store.data
                exact = seq[-1] == "ok"
                verify(final, vs, times, n, salt, len(times), "at the end", exact)
                return "ok"

            return [rank_fn(r) for r in range(n)], check

        ex = Explorer(n, build, copies, coll=h["coll"])
        try:
            ex.deviations(base=h["pol"], bound=0)
        finally:
            rec.executions += ex.executions
            rec.transitions += ex.transitions
            rec.traces += ex.executions

    rec.case(key, go)
    rec.sample(key)


class Log(SharedStore):
    """Keeps the contents after every modification, with the stores completed by then."""

    def __init__(self, ident, completed):
        super().__init__(ident)
        self.completed = completed

    def _point(self, kind, key, write, fn):
        if not write:
            return super()._point(kind, key, write, fn)

        def ex():
            fn()
            self.log.append((f"{kind} {key}", min(self.completed), dict(self.data)))

        return super()._point(kind, key, write, ex)
