"""C16: writing and reading a state round-trips."""
import itertools
import os
import shutil
import tempfile

import cftime
import fsspec
import numpy as np

from mc import load
from mc.core import Violation
from mc.fields import KINDS, Spec, same, first_diff

ID = "C16"
LEVEL = "exploration"
RULE = (
    "a case is one history of write_state/read_state calls on one file location (one variable in every combination of "
    "dimension list x type x units and dimension list x type x sizes from empty to long, states of several variables, every calendar x time, and all sequences of up to 4 writes, "
    "refused writes and reads of three states); names, dimensions, units, type, every compute-domain value and the time are "
    "compared after every read, and the written state and all earlier results after every call"
)
ASSUMPTIONS = [
    "types that the file format has (float64, float32, int32, int16, int8, bool), in native byte order; of the dimensions "
    "of a variable at most the first may be empty (the netCDF 3 format has no others)",
    "no variable is named like a dimension, and extents of one dimension agree between the variables of a state",
]
DIMS = [d for k in range(4) for d in itertools.permutations(("x", "y", "z"), k)] + [
    ("x_interface", "y"), ("z", "y_interface", "x_interface"), ("y_interface", "x", "z_interface"),
    ("z_soil", "y", "x"), ("tile", "z", "y", "x"), ("x", "tile", "y_interface", "z_interface"), ("tile",),
    ("z_interface",), ("custom dimension", "x"),
]
DTYPES = ("f8", "f4", "i4", "i2", "i1", "?")
UNITS = ("m", "", "K s^-1", "s", "days", "hours", "seconds since 2000-01-01", "days since 0001-01-01 00:00:00", "none",
         "1", " ", "\u00b5m", "days since launch", "milliseconds", "m/s", "degrees_north", "minutes", "x" * 70)
CALENDARS = ("DatetimeJulian", "DatetimeNoLeap", "Datetime360Day", "DatetimeGregorian", "DatetimeProlepticGregorian", "DatetimeAllLeap")
TIMES = ((1, 1, 1), (2016, 2, 28, 23, 59, 59), (2016, 2, 28, 23, 59, 59, 1), (2000, 1, 1, 0, 0, 0, 500000),
         (2016, 8, 1, 0, 15), (9999, 12, 30, 12, 30), (1582, 10, 4), (1582, 10, 15, 0, 0, 1), (2300, 1, 1),
         (1700, 2, 28, 0, 0, 0, 999999), (1999, 12, 30, 6), (999, 3, 1, 1, 1, 1))
NAMES = ("air_temperature", "x_wind", "a", "air temperature", "A", "time_of_day", "units", "_u", "Time", "t\u00e9mp", "specific-humidity.2")


def jobs(tier, seed):
    parts = 8 if tier == "quick" else 16
    return ([{"what": "single", "part": k, "parts": parts} for k in range(parts)]
            + [{"what": "multi", "part": k, "parts": 8} for k in range(8)]
            + [{"what": "time", "part": k, "parts": 2} for k in range(2)]
            + [{"what": "sizes", "part": k, "parts": 4} for k in range(4)]
            + [{"what": "history", "part": k, "parts": 8} for k in range(8)])


def spec_for(dims, i, dtype, units, resize=None):
    sizes = {}
    for k, d in enumerate(dims):
        base = {"x": 3, "y": 2, "z": 4, "z_soil": 1, "tile": 6, "custom dimension": 2}.get(d.split("_i")[0], 2)
        sizes[d] = base + d.endswith("interface") if resize is None else resize[k % len(resize)]
    lo = {d: (i + k) % 3 for k, d in enumerate(dims)}
    hi = {d: (i + 2 * k) % 2 for k, d in enumerate(dims)}
    kind = KINDS[i % 6] if dims else "C"
    return Spec(dims, sizes, lo, hi, dtype, kind, units)


def values(spec, i, salt):
    v = spec.values(100 * i, salt, special=True)
    if spec.dtype.kind == "f" and v.size:
        flat = v.reshape(-1)
        extremes = [np.finfo(spec.dtype).max, np.finfo(spec.dtype).tiny, -0.0, -np.inf, 1e20, 9.969209968386869e36, 0.0, -32767.0]
        for k in range(0, flat.size, 3):
            flat[k] = extremes[(i + k // 3) % len(extremes)]
    elif spec.dtype.kind == "i" and v.size:
        info = np.iinfo(spec.dtype)
        extremes = [info.min, info.max, 0, -1, info.min + 1]
        flat = v.reshape(-1)
        for k in range(0, flat.size, 2):
            flat[k] = extremes[(i + k // 2) % len(extremes)]
    return v


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-c16-", dir=os.environ.get("VERIF_TMP"))
        self.n = 0

    def path(self, memory):
        self.n += 1
        if memory:
            return f"memory://c16-{os.getpid()}/state{self.n}.nc"
        return os.path.join(self.dir, f"state{self.n}.nc")

    def close(self):
        shutil.rmtree(self.dir)
        fs = fsspec.filesystem("memory")
        if fs.exists(f"/c16-{os.getpid()}"):
            fs.rm(f"/c16-{os.getpid()}", recursive=True)


def run_job(job, rec):
    util = load.util()
    scratch = Scratch()
    try:
        globals()["job_" + job["what"]](job, rec, util, scratch)
    finally:
        scratch.close()


class State:
    """A state and everything it must still hold after being written."""

    def __init__(self, util, variables, time, salt):
        """variables: list of (name, dims, i, dtype, units[, sizes])."""
        self.specs, self.vals, self.state = {}, {}, {}
        for name, dims, i, dtype, units, *sizes in variables:
            s = spec_for(dims, i, dtype, units, *sizes)
            v = values(s, i, salt)
            self.specs[name], self.vals[name] = s, v
            self.state[name] = s.quantity(util, v)
        self.time = time
        if time is not None:
            self.state["time"] = time
        self.ids = {k: id(v) for k, v in self.state.items()}
        self.order = list(self.state)

    def unchanged(self, what):
        if list(self.state) != self.order or any(id(v) != self.ids[k] for k, v in self.state.items()):
            raise Violation(f"{what}: the state's entries were modified")
        for name, s in self.specs.items():
            q = self.state[name]
            if not same(q.data, self.vals[name]):
                raise Violation(f"{what}: written quantity {name} was modified: " + first_diff(q.data, self.vals[name]))
            if (tuple(q.dims), q.units, tuple(q.origin), tuple(q.extent)) != (s.dims, s.units, s.origin, s.extent):
                raise Violation(f"{what}: metadata of written quantity {name} was modified")

    def matches(self, out, what):
        if set(out) != set(self.state):
            raise Violation(f"{what}: names {sorted(out)}, expected {sorted(self.state)}")
        t = out["time"]
        if t != self.time or getattr(t, "calendar", None) != self.time.calendar:
            raise Violation(f"{what}: time {t!r}, expected {self.time!r}")
        for name, s in self.specs.items():
            q = out[name]
            want = s.compute(self.vals[name])
            if tuple(q.dims) != s.dims or q.units != s.units or tuple(q.extent) != s.extent:
                raise Violation(f"{what}: {name} has dims {q.dims} units {q.units!r} extent {q.extent}, "
                                f"expected {s.dims} {s.units!r} {s.extent}")
            got = np.asarray(q.view[:])
            if not same(got, want):
                raise Violation(f"{what}: {name}: " + first_diff(got, want))
            if got.dtype.kind == "f" and not np.array_equal(np.signbit(got[got == 0]), np.signbit(want[want == 0])):
                raise Violation(f"{what}: {name}: sign of zero lost")


def as_dataset(util, st):
    """The dataset of a state, with and without its time."""
    for drop in (False, True):
        state = {k: v for k, v in st.state.items() if not (drop and k == "time")}
        ds = util.to_dataset(state)
        st.unchanged("after to_dataset")
        if set(ds.data_vars) != set(state) or len(ds.coords):
            raise Violation(f"to_dataset: variables {sorted(ds.data_vars)} and coordinates {sorted(ds.coords)}, expected {sorted(state)}")
        if not drop and (ds["time"].ndim or ds["time"].item() != st.time or ds["time"].item().calendar != st.time.calendar):
            raise Violation(f"to_dataset: time {ds['time']!r}, expected {st.time!r}")
        for name, s in st.specs.items():
            v, want = ds[name], s.compute(st.vals[name])
            if v.dims != s.dims or dict(v.attrs) != {"units": s.units} or not same(np.asarray(v.values), want):
                raise Violation(f"to_dataset: {name} has dims {v.dims}, attributes {v.attrs}: " + first_diff(np.asarray(v.values), want))


def round_trip(util, scratch, st, memory):
    as_dataset(util, st)
    path = scratch.path(memory)
    util.write_state(st.state, path)
    st.unchanged("after write_state")
    out = util.read_state(path)
    st.unchanged("after read_state")
    st.matches(out, "read back")
    return out


def job_single(job, rec, util, scratch):
    deep = job["tier"] == "thorough"
    i = 0
    for dims, dtype, units, rep in itertools.product(DIMS, DTYPES, UNITS, range(5 if deep else 1)):
        i += 1
        if i % job["parts"] != job["part"]:
            continue
        name = NAMES[i % len(NAMES)]
        cal, t = CALENDARS[i % 6], TIMES[i % len(TIMES)]
        key = {"dims": dims, "dtype": dtype, "units": units, "name": name, "i": i}

        def go():
            st = State(util, [(name, dims, i, dtype, units)], getattr(cftime, cal)(*t), job["seed"])
            round_trip(util, scratch, st, i % 2)

        rec.case(key, go)
        rec.executions += 1
        rec.sample(key)


def job_multi(job, rec, util, scratch):
    """States of 0 to 4 variables; all pairs of dimension lists."""
    combos = [()] + [(a, b) for a in range(len(DIMS)) for b in range(a, len(DIMS))]
    combos += [(a, (a + s) % len(DIMS), (a + 5 * s) % len(DIMS), (a + 11 * s) % len(DIMS)) for a in range(len(DIMS)) for s in (1, 3)]
    for i, combo in enumerate(combos):
        if i % job["parts"] != job["part"]:
            continue
        vs = [(NAMES[(i + 2 * k) % len(NAMES)] + f" {k}", DIMS[d], i + k, DTYPES[(i // 2 + k) % 6], UNITS[(i + 7 * k) % len(UNITS)])
              for k, d in enumerate(combo)]
        t = getattr(cftime, CALENDARS[i % 6])(*TIMES[i % len(TIMES)])
        key = {"vars": vs, "time": str(t)}
        rec.case(key, lambda: round_trip(util, scratch, State(util, vs, t, job["seed"]), i % 2))
        rec.executions += 1
        rec.sample(key)


def job_time(job, rec, util, scratch):
    for i, (cal, t) in enumerate(itertools.product(CALENDARS, TIMES)):
        if i % job["parts"] != job["part"]:
            continue
        key = {"calendar": cal, "time": t}
        rec.case(key, lambda: round_trip(
            util, scratch, State(util, [("a", ("y", "x"), i, "f8", UNITS[i % len(UNITS)])], getattr(cftime, cal)(*t), job["seed"]), i % 2))
        rec.executions += 1


SIZES = ((0,), (1,), (0, 3), (1, 5), (0, 2, 3), (1, 1, 2), (40, 3), (3, 70), (300,), (70000,))


def job_sizes(job, rec, util, scratch):
    """Empty, single-element and long dimensions, alone and beside an ordinary variable, in every type."""
    i = 0
    for dims, sizes, dtype, beside in itertools.product(DIMS, SIZES, DTYPES, (False, True)):
        i += 1
        if i % job["parts"] != job["part"] or not dims or len(sizes) > len(dims):
            continue
        if sum(sizes[k % len(sizes)] == 0 for k in range(len(dims))) > 1:
            continue
        if np.prod([sizes[k % len(sizes)] for k in range(len(dims))], dtype=float) > 1e5:
            continue
        vs = [(NAMES[i % len(NAMES)], dims, i, dtype, UNITS[i % len(UNITS)], sizes)]
        if beside:
            vs.append(("beside", ("w", "v"), i, "f4", "m"))
        t = getattr(cftime, CALENDARS[i % 6])(*TIMES[i % len(TIMES)])
        key = {"vars": vs}
        rec.case(key, lambda: round_trip(util, scratch, State(util, vs, t, job["seed"]), i % 2))
        rec.executions += 1


def job_history(job, rec, util, scratch):
    """All sequences of writes (three states, a refused one) and reads on one path."""
    depth = 7 if job["tier"] == "thorough" else 5
    ops = ("w0", "w1", "w2", "refused", "read")
    seqs = [s for k in range(2, depth + 1) for s in itertools.product(ops, repeat=k) if s[0][0] == "w"]
    t = (cftime.DatetimeJulian(2016, 8, 1), cftime.DatetimeNoLeap(2016, 8, 1, 0, 15), cftime.Datetime360Day(1, 2, 30))
    for i, seq in enumerate(seqs):
        if i % job["parts"] != job["part"]:
            continue

        def go():
            states = [
                State(util, [("a", ("y", "x"), 1, "f8", "m"), ("b", ("z", "y", "x"), 2, "f4", "s")], t[0], job["seed"]),
                State(util, [("a", ("x", "y"), 3, "f4", "K")], t[1], job["seed"]),
                State(util, [("c", ("z",), 4, "i4", "days"), ("a", ("z",), 5, "?", "")], t[2], job["seed"]),
            ]
            bad = State(util, [("a", ("y", "x"), 7, "f8", "m")], None, job["seed"])
            worse = State(util, [("a", ("y", "x"), 7, "f8", "m"), ("b", ("y", "x"), 8, "f4", "m", (3, 5))], t[1], job["seed"])
            path = scratch.path(i % 2)
            last, results = None, []
            for k, op in enumerate(seq):
                what = f"step {k} ({op}) of {seq}"
                if op == "refused":
                    for b, why in ((bad, "without a time"), (worse, "whose variables disagree about an extent")):
                        try:
                            util.write_state(b.state, path)
                        except ValueError:
                            pass
                        else:
                            raise Violation(f"{what}: a state {why} was written")
                        b.unchanged(what)
                elif op == "read":
                    out = util.read_state(path)
                    results.append((last, out))
                else:
                    last = states[int(op[1])]
                    util.write_state(last.state, path)
                for st in states:
                    st.unchanged(what)
                for st, out in results:
                    st.matches(out, what)
            last.matches(util.read_state(path), f"at the end of {seq}")

        rec.case({"history": seq}, go)
        rec.executions += 1
