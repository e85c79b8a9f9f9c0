"""C08: state scatter and gather agree with the per-variable operations."""
import itertools
from datetime import timedelta

import cftime
import numpy as np

from mc import load
from mc.core import Violation
from mc.explore import Explorer, POLICIES
from mc.fields import same, first_diff
from mc.props import c07

ID = "C08"
LEVEL = "model_checking"
RULE = (
    "a case is one (communicator, set of variables, insertion orders per rank, time presence, receive-state "
    "contents, sequence of state operations), explored under all schedules within a deviation bound (small "
    "worlds) or the base policies; distinct cases counted; states are nodes of the schedule trees"
)
ASSUMPTIONS = ["all ranks hold the same set of variable names", "MPI semantics as modelled by mc/world.py"]

VARS = {
    "a": (["y", "x"], "f8", "C", 0),
    "b": (["z", "y", "x_interface"], "f4", "F", 1),
    "B": (["y_interface", "x", "z"], "i4", "strided", 2),
    "zeta": (["y_interface", "x_interface"], "f8", "window", 1),
}
T0 = cftime.DatetimeJulian(2016, 8, 1, 12, 0, 1)
T1 = cftime.DatetimeJulian(1999, 1, 2)
M = (2, 1)


def jobs(tier, seed):
    out = []
    deep = tier == "thorough"
    worlds = [("tile", (1, 1)), ("tile", (1, 2)), ("tile", (2, 1)), ("tile", (2, 2)), ("cube", (1, 1))]
    if deep:
        worlds += [("tile", (2, 3)), ("cube", (1, 2))]
    for system, layout in worlds:
        for op in ("scatter", "gather", "both"):
            parts = 4 if layout != (1, 1) or system == "cube" else 1
            for k in range(parts):
                out.append({"sys": system, "layout": list(layout), "op": op, "part": k, "parts": parts,
                            "weight": 10 * layout[0] * layout[1] * (6 if system == "cube" else 1)})
    return out


def name_sets():
    names = list(VARS)
    for k in (0, 1, 2, 3):
        for c in itertools.combinations(names, k):
            yield c
    yield tuple(names)
    yield "a", "a2"
    yield "a2", "b", "a"


class Plan:
    """One state operation over all ranks and its model."""

    def __init__(self, system, layout, n, op, names, orders, times, pre, salt, base):
        """orders[r]: insertion order (incl. 'time' when sent); times: (sent, in receive state);
        pre: names pre-allocated in the receive state ('-' : receive state is None)."""
        self.op, self.names, self.orders, self.n = op, names, orders, n
        self.send_time, self.recv_time, self.pre = times[0], times[1], pre
        self.items = {}
        for v in sorted((set(names) | set(pre or ())) & set(VARS)):
            dims, dt, mem, pad = VARS[v]
            it = c07.Item(system, layout, n, dims, {
                "op": op, "dtype": dt, "send": mem, "recv": "window" if (pre is not None and v in pre) else None,
                "pad": pad, "size": M, "scramble": 0}, base, salt)
            base = it.top
            self.items[v] = it
        if "a2" in names:  # the quantity called a, under a second name
            self.items["a2"] = self.items["a"]
        self.top = base

    def run(self, util, comm, r):
        root = r == 0
        sends = root or self.op == "gather"
        rec = {"send": {}, "orig": {}}
        state = None
        if sends:
            state = {}
            for v in self.orders[r]:
                if v == "time":
                    state[v] = self.send_time if root else T1 + timedelta(days=r)
                else:
                    it = self.items[v]
                    q = (it.gspec.quantity(util, it.gvals) if self.op == "scatter"
                         else it.rspecs[r].quantity(util, it.rvals[r]))
                    twin = {"a": "a2", "a2": "a"}.get(v)
                    state[v] = state.get(twin, q)
            rec["before"] = {k: (id(q), q.data.copy()) for k, q in state.items() if k != "time"}
            rec["keys"] = list(state)
        recv = None
        if self.pre is not None:
            recv = {}
            for v in self.pre:
                it = self.items.get(v)
                if v == "other":
                    recv[v] = util.Quantity(np.arange(3.0), ["z"], "m")
                elif self.op == "scatter":
                    recv[v] = it.rspecs[r].quantity(util, it.rvals[r])
                else:
                    recv[v] = it.gspec.quantity(util, it.gvals)
            if self.recv_time is not None:
                recv["time"] = self.recv_time
            rec["pre"] = dict(recv)
        if self.op == "scatter":
            kw = {} if recv is None else {"recv_state": recv}
            out = comm.scatter_state(state, **kw) if sends else comm.scatter_state(**kw)
        else:
            kw = {} if recv is None else {"recv_state": recv}
            out = comm.gather_state(state, **kw)
        rec["state"], rec["recv"], rec["out"] = state, recv, out
        return rec

    def check(self, r, rec):
        op, root = self.op, r == 0
        tag = f"{op}_state names {self.names} pre {self.pre} rank {r}"
        if rec["state"] is not None:
            if list(rec["state"]) != rec["keys"]:
                raise Violation(f"{tag}: the sent state's keys changed: {list(rec['state'])}")
            for k, (i, data) in rec["before"].items():
                if id(rec["state"][k]) != i or not same(rec["state"][k].data, data):
                    raise Violation(f"{tag}: sent variable {k} was modified")
        out, recv = rec["out"], rec["recv"]
        receives = root or op == "scatter"
        if not receives:
            if recv is None:
                if out is not None:
                    raise Violation(f"{tag}: unexpected return value {out!r} on a rank that receives nothing")
                return
            target = recv
            want_names = set(self.pre)
            want_time = self.recv_time
        else:
            if recv is not None and out is not recv:
                raise Violation(f"{tag}: the supplied state is not the one returned")
            target = out
            want_names = set(self.names) | set(self.pre or ())
            want_time = self.send_time if self.send_time is not None else (
                self.recv_time if self.pre is not None else None)
        keys = set(target)
        if keys - {"time"} != want_names:
            raise Violation(f"{tag}: variables {sorted(keys)}, expected {sorted(want_names)}")
        if target.get("time") != want_time or ("time" in target) != (want_time is not None):
            raise Violation(f"{tag}: time {target.get('time')}, expected {want_time}")
        for v in want_names:
            q = target[v]
            if rec.get("pre") and v in rec["pre"] and rec["pre"][v] is not q:
                raise Violation(f"{tag}: pre-allocated {v} was replaced")
            if v == "other":
                if not same(q.data, np.arange(3.0)):
                    raise Violation(f"{tag}: {v} was modified")
                continue
            it = self.items[v]
            if v in self.names and receives:
                it.check(r, {"same": True, "out": q})
            else:
                init = it.rvals[r] if op == "scatter" else it.gvals
                if not same(q.data, init):
                    raise Violation(f"{tag}: {v} was not sent but changed: " + first_diff(q.data, init))


def plans(system, layout, n, op, tier, salt):
    """All single-operation cases."""
    k = 0
    for names in name_sets():
        for has_time in (False, True):
            full = names + (("time",) if has_time else ())
            perms = list(itertools.permutations(full))
            pres = [None, ()]
            for kk in range(1, len(names) + 1):
                pres += list(itertools.combinations(names, kk)) if len(names) < 3 else [names[:kk]]
            extra = [v for v in VARS if v not in names][:1]
            pres += [p + tuple(extra) + ("other",) for p in pres if p is not None and len(p) < 2]
            for pre in pres:
                for recv_time in ((None,) if pre is None else (None, T1)):
                    k += 1
                    # insertion orders: one differs per rank, running through all permutations
                    n_shift = len(perms) if (op == "gather" and len(full) < 4) else 1
                    for s in range(n_shift):
                        step = 1 + (k + s) % 5
                        orders = [perms[(s + r * step) % len(perms)] for r in range(n)]
                        sent = (T0, T0, timedelta(0))[k % 3] if has_time else None  # a time may be false in itself
                        yield dict(names=names, orders=orders, times=(sent, recv_time), pre=pre)


def run_job(job, rec):
    system, layout, op = job["sys"], tuple(job["layout"]), job["op"]
    n = layout[0] * layout[1] * (6 if system == "cube" else 1)
    copies = load.copies(n)
    if op != "both":
        for i, p in enumerate(plans(system, layout, n, op, job["tier"], job["seed"])):
            if i % job["parts"] != job["part"]:
                continue
            go(rec, job, system, layout, n, copies, [dict(p, op=op)], i)
    else:
        # sequences on one communicator: scatter/gather mixed, buffers re-used
        base = [
            dict(op="scatter", names=("a", "b"), times=(T0, None), pre=None),
            dict(op="gather", names=("b", "a", "zeta"), times=(None, T1), pre=("a",)),
            dict(op="scatter", names=("zeta",), times=(None, T1), pre=("a", "zeta", "other")),
            dict(op="gather", names=("a", "B"), times=(T0, None), pre=None),
            dict(op="gather", names=("a", "b"), times=(T0, None), pre=()),
        ]
        i = 0
        for seq in itertools.product(base, repeat=3):
            i += 1
            if i % job["parts"] != job["part"]:
                continue
            out = []
            for k, p in enumerate(seq):
                full = p["names"] + (("time",) if p["times"][0] is not None else ())
                perms = list(itertools.permutations(full))
                out.append(dict(p, orders=[perms[(r * (k + 1) + i) % len(perms)] for r in range(n)]))
            go(rec, job, system, layout, n, copies, out, i)


def go(rec, job, system, layout, n, copies, specs, i):
    key = {"sys": system, "layout": layout,
           "ops": [{k: (str(v) if k == "times" else v) for k, v in s.items()} for s in specs]}

    def run():
        def build():
            ps, base = [], 0
            for s in specs:
                p = Plan(system, layout, n, s["op"], s["names"], s["orders"], s["times"], s["pre"], job["seed"], base)
                base = p.top
                ps.append(p)
            got = [[None] * n for _ in ps]

            def rank_fn(r):
                def f(comm):
                    util = copies[r].util
                    c = c07.make_comm(util, system, layout, comm)
                    for k, p in enumerate(ps):
                        got[k][r] = p.run(util, c, r)
                return f

            def check(w):
                for k, p in enumerate(ps):
                    for r in range(n):
                        p.check(r, got[k][r])
                return "ok"

            return [rank_fn(r) for r in range(n)], check

        coll = ("loose", "sync")[i % 2]
        ex = Explorer(n, build, copies, coll=coll, cap=3000)
        try:
            bound = 0
            if n <= 4 and len(specs) == 1 and (job["tier"] == "thorough" or i % 8 == 0):
                bound = 1
            ex.deviations(base=POLICIES[i % 4], bound=bound)
        finally:
            rec.executions += ex.executions
            rec.transitions += ex.transitions
            rec.states += ex.states
            rec.traces += ex.executions
            if ex.capped:
                rec.cap("execution cap")

    rec.case(key, run)
    rec.sample(key)
