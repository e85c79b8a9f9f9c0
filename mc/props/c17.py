"""C17: nudging relaxes exactly the requested variables towards the reference."""
import itertools
from datetime import timedelta

import cftime
import numpy as np

from mc import load
from mc.core import Violation
from mc.fields import KINDS, Spec, same, first_diff

ID = "C17"
LEVEL = "exploration"
RULE = (
    "a case is one sequence of up to 4 tendency calculations, applications and failing applications on one pair of states "
    "(variables present, subset nudged, timescales, timestep, dimension lists, types, paddings, memory layouts); tendencies, "
    "their metadata, and every storage point of state and reference are compared with an independent computation after each call"
)
ASSUMPTIONS = [
    "floating-point variables (integers for the calculation of tendencies); corresponding quantities have the same dimensions in the same order",
    "results may differ from the reference computation by rounding (a few units in the last place of the largest operand)",
]
SCALES = (timedelta(microseconds=1), timedelta(milliseconds=1500), timedelta(seconds=1), timedelta(seconds=30), timedelta(hours=1),
          timedelta(hours=6), timedelta(days=1), timedelta(days=2, hours=3, seconds=1, microseconds=7), timedelta(days=400),
          timedelta(seconds=-90))
STEPS = SCALES[:6] + (timedelta(days=1, seconds=2), timedelta(0))
DIMS = [d for k in range(1, 4) for d in itertools.permutations(("x", "y", "z"), k)] + [
    (), ("x_interface", "y"), ("z", "y_interface", "x_interface"), ("tile", "z", "y", "x"), ("a", "b"), ("z_soil", "y", "x")]
NAMES = ("air_temperature", "x_wind", "q")
INTEGERS = (("i4", "f8"), ("f8", "i4"), ("i8", "i4"), ("i4", "f4"))
DT = (("f8", "f8"), ("f4", "f4"), ("f4", "f8"), ("f8", "f4"))


def jobs(tier, seed):
    return ([{"what": "pairs", "part": k, "parts": 8} for k in range(8)]
            + [{"what": "subsets", "part": k, "parts": 8} for k in range(8)]
            + [{"what": "history", "part": k, "parts": 8} for k in range(8)])


def spec(dims, i, dtype, kind, grow=1):
    sizes = {d: (2 + k) * grow + d.endswith("interface") for k, d in enumerate(sorted(dims))}
    lo = {d: (i + k) % 3 for k, d in enumerate(dims)}
    hi = {d: (2 * i + k) % 3 for k, d in enumerate(dims)}
    return Spec(dims, sizes, lo, hi, dtype, kind if dims else "C", ("K", "m s^-1", "", "kg/kg")[i % 4])


def fill(s, base, salt):
    """Values of mixed sign and magnitude, some of them not a number."""
    ids = np.arange(s.size).reshape(s.shape) + base
    v = ((ids * 7919 + salt * 31) % 2003 - 1001) / 8.0
    v = np.where(ids % 7 == 3, v * 1000, v)
    if s.dtype.kind == "f":
        v = np.where(ids % 23 == 5, np.nan, v)
    return v.astype(s.dtype)


class Pair:
    """One variable in the state and in the reference."""

    def __init__(self, util, dims, i, salt, dt=None, grow=1):
        a, b = (dt or DT)[i % 4]
        self.s = spec(dims, i, a, KINDS[i % 6], grow)
        self.r = spec(dims, i + 1 + i // 4, b, KINDS[(i // 2 + 3) % 6], grow)
        self.sv, self.rv = fill(self.s, 1000 * i, salt), fill(self.r, 1000 * i + 517, salt)
        self.q, self.ref = self.s.quantity(util, self.sv), self.r.quantity(util, self.rv)
        self.eps = max(np.finfo(x if x[0] == "f" else "f8").eps for x in (a, b))

    def box(self):
        return tuple(slice(o, o + e) for o, e in zip(self.s.origin, self.s.extent))

    def tendency(self, scale):
        a, b = self.sv[self.box()].astype("f8"), self.r.compute(self.rv).astype("f8")
        sec = scale.days * 86400.0 + scale.seconds + scale.microseconds * 1e-6
        return (b - a) / sec, (np.abs(a) + np.abs(b)) / abs(sec)


def close(got, want, size, eps, what):
    got = np.asarray(got)
    if got.shape != want.shape:
        raise Violation(f"{what}: shape {got.shape}, expected {want.shape}")
    g = got.astype("f8")
    ok = (np.abs(g - want) <= 16 * eps * size + 1e-300) | (np.isnan(g) & np.isnan(want))
    if not ok.all():
        i = tuple(int(v) for v in np.argwhere(~ok)[0])
        raise Violation(f"{what}: {(~ok).sum()} points differ, first {i}: {g[i]!r}, expected {want[i]!r}")


class System:
    def __init__(self, util, variables, extra, salt, dt=None, grow=1):
        """variables: name -> (dims, i); extra: names present only in one of the states."""
        self.util = util
        self.pairs = {n: Pair(util, d, i, salt, dt, grow) for n, (d, i) in variables.items()}
        self.state = {n: p.q for n, p in self.pairs.items() if n not in extra.get("reference_only", ())}
        self.reference = {n: p.ref for n, p in self.pairs.items() if n not in extra.get("state_only", ())}
        if extra.get("time"):
            self.state["time"] = cftime.DatetimeJulian(2016, 8, 1)
            self.reference["time"] = cftime.DatetimeJulian(2016, 8, 2)
        self.sizes = {}

    def verify(self, what, changed=()):
        """Nothing but the compute domains in `changed` differs from the recorded values."""
        for n, p in self.pairs.items():
            if not same(p.ref.data, p.rv):
                raise Violation(f"{what}: reference {n} was modified: " + first_diff(p.ref.data, p.rv))
            if n not in changed:
                if not same(p.q.data, p.sv):
                    raise Violation(f"{what}: state variable {n} was modified: " + first_diff(p.q.data, p.sv))
            if p.q.data.dtype != p.s.dtype or tuple(p.q.dims) != p.s.dims or p.q.units != p.s.units or \
                    tuple(p.q.origin) != p.s.origin or tuple(p.q.extent) != p.s.extent:
                raise Violation(f"{what}: metadata of state variable {n} was modified")
            if n in self.state and self.state[n] is not p.q or n in self.reference and self.reference[n] is not p.ref:
                raise Violation(f"{what}: {n} was replaced")

    def check_tendencies(self, out, scales, want, what):
        if set(out) != set(scales):
            raise Violation(f"{what}: tendencies of {sorted(out)}, expected {sorted(scales)}")
        for n in scales:
            p, t = self.pairs[n], out[n]
            if tuple(t.dims) != p.s.dims or t.units != p.s.units + " s^-1":
                raise Violation(f"{what}: tendency of {n} has dims {t.dims} units {t.units!r}")
            close(t.view[:], want[n][0], want[n][1], p.eps, f"{what}: tendency of {n}")
            for m, o in self.pairs.items():
                if np.shares_memory(t.data, o.q.data) or np.shares_memory(t.data, o.ref.data):
                    raise Violation(f"{what}: tendency of {n} shares memory with {m}")

    def step(self, op, scales, dt, what):
        want = {n: self.pairs[n].tendency(s) for n, s in scales.items()}
        given = dict(scales)
        if op == "tend":
            out = self.util.get_nudging_tendencies(self.state, self.reference, given)
            self.verify(what)
        else:
            out = self.util.apply_nudging(self.state, self.reference, given, dt)
            self.verify(what, scales)
            sec = dt.total_seconds()
            for n in scales:
                p = self.pairs[n]
                new = p.q.data.copy()
                box = p.box()
                old = p.sv[box].astype("f8")
                w = old + want[n][0] * sec
                close(new[box], w, np.abs(old) + np.abs(w) + want[n][1] * abs(sec), p.eps, f"{what}: {n}")
                if dt == scales[n]:
                    ref = p.r.compute(p.rv).astype("f8")
                    w = np.where(np.isnan(old), np.nan, ref)
                    close(new[box], w, np.abs(old) + np.abs(ref), p.eps, f"{what}: {n} (timestep equals timescale)")
                outside, before = new.copy(), p.sv.copy()
                outside[box] = before[box] = 0
                if not same(outside, before):
                    raise Violation(f"{what}: {n}: points outside the compute domain changed: " + first_diff(outside, before))
                p.sv = new
        if given != scales:
            raise Violation(f"{what}: the timescales were modified")
        self.check_tendencies(out, scales, want, what)
        return out, want


def run_job(job, rec):
    util = load.util()
    globals()["job_" + job["what"]](job, rec, util)


def job_pairs(job, rec, util):
    """Every dimension list x timescale x timestep, one variable."""
    reps = 6 if job["tier"] == "thorough" else 1
    for i, (dims, scale, dt, rep) in enumerate(itertools.product(DIMS, SCALES, STEPS, range(reps))):
        if i % job["parts"] != job["part"]:
            continue

        def go():
            sys = System(util, {"a": (dims, i + 5 * rep)}, {}, job["seed"], grow=(1, 1, 13, 1, 40 if len(dims) < 3 else 9)[i % 5])
            sys.step("tend", {"a": scale}, dt, "tendency")
            sys.step("apply", {"a": scale}, dt, "application")

        rec.case({"dims": dims, "timescale": str(scale), "timestep": str(dt), "rep": rep}, go)

        def integers():
            sys = System(util, {"a": (dims, i + 5 * rep)}, {}, job["seed"], INTEGERS)
            sys.step("tend", {"a": scale}, dt, "tendency of integers")

        if dt == STEPS[0]:
            rec.case({"dims": dims, "timescale": str(scale), "integers": 1, "rep": rep}, integers)
            rec.executions += 1
        rec.executions += 2
    rec.sample({"dims": DIMS, "timescales": [str(s) for s in SCALES]})


def job_subsets(job, rec, util):
    """Every presence pattern of three variables x nudged subset."""
    k = 0
    for where in itertools.product(("both", "state", "reference"), repeat=3):
        for m in range(4):
            for sub in itertools.permutations(NAMES, m):
                for op in ("tend", "apply"):
                    k += 1
                    if k % job["parts"] != job["part"]:
                        continue
                    extra = {"state_only": [n for n, w in zip(NAMES, where) if w == "state"],
                             "reference_only": [n for n, w in zip(NAMES, where) if w == "reference"], "time": k % 2}
                    missing = any(w != "both" and n in sub for n, w in zip(NAMES, where))
                    scales = {n: SCALES[(k + j * 3) % len(SCALES)] for j, n in enumerate(sub)}

                    def go():
                        vs = {n: (DIMS[(k + 5 * j) % len(DIMS)], k + j) for j, n in enumerate(NAMES)}
                        sys = System(util, vs, extra, job["seed"])
                        if not missing:
                            sys.step(op, scales, STEPS[k % len(STEPS)], op)
                            return
                        try:
                            if op == "tend":
                                util.get_nudging_tendencies(sys.state, sys.reference, scales)
                            else:
                                util.apply_nudging(sys.state, sys.reference, scales, STEPS[k % len(STEPS)])
                        except Exception:
                            sys.verify("after a rejected call")
                        else:
                            raise Violation("a variable missing from one of the states was not reported")

                    rec.case({"where": where, "nudged": sub, "op": op}, go)
                    rec.executions += 1


def job_history(job, rec, util):
    """Sequences of calls on the same states; earlier tendencies stay as they were."""
    depth = 5 if job["tier"] == "thorough" else 4
    subs = [s for m in range(1, 4) for s in itertools.combinations(NAMES, m)]
    ops = [(op, s) for op in ("tend", "apply") for s in subs]
    for i, seq in enumerate(itertools.product(ops, repeat=depth)):
        if i % job["parts"] != job["part"]:
            continue

        def go():
            vs = {n: (DIMS[(i + 7 * j) % len(DIMS)], i + j) for j, n in enumerate(NAMES)}
            sys = System(util, vs, {"time": i % 2}, job["seed"])
            kept = []
            for k, (op, sub) in enumerate(seq):
                scales = {n: SCALES[3 + (i + k + j) % 6] for j, n in enumerate(sub)}
                what = f"step {k} ({op} {sub})"
                out, want = sys.step(op, scales, STEPS[(i + k) % 5], what)
                for o, s, w in kept:
                    sys.check_tendencies(o, s, w, f"after {what}, an earlier tendency")
                kept.append((out, scales, want))

        rec.case({"history": seq}, go)
        rec.executions += depth
