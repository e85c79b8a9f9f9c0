"""C15: restart files load into the right variable, rank, dimension and time."""
import itertools
import json
import os
import shutil
import tempfile

import cftime
import fsspec
import numpy as np

from mc import load
from mc.core import Violation
from mc.explore import Explorer, POLICIES
from mc.fields import KINDS, Spec, same, first_diff
from mc.props.c07 import block, lengths, pads

ID = "C15"
LEVEL = "exploration"
RULE = (
    "a case is one sequence of 1 or 2 open_restart calls on one communicator (layout, directory contents, label, names, "
    "tracer properties, receiving state) executed by all ranks of the cube under one MPI semantics and base schedule; "
    "every quantity on every rank is compared point by point, with its metadata and time, with the written files"
)
ASSUMPTIONS = [
    "the documented standard name, dimensions and units of each restart variable are those of mc/data/restart_table.json",
    "restart names shared by several standard names (sfcflw, sfcfsw, topflw, topfsw) are outside the property",
    "MPI semantics as modelled by mc/world.py",
]
FILES = ("fv_core.res", "fv_srf_wnd.res", "fv_tracer.res", "sfc_data", "phy_data")
CAL = {1: cftime.Datetime360Day, 2: cftime.DatetimeJulian, 3: cftime.DatetimeGregorian, 4: cftime.DatetimeNoLeap}
TIMES = ((2016, 8, 3, 0, 0, 0), (1, 1, 1, 0, 0, 0), (2020, 2, 28, 23, 59, 59), (1999, 12, 30, 6, 15, 0), (2016, 2, 29, 12, 0, 1))
NZ = {"z": 3, "z_interface": 4, "z_soil": 2}

with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "data", "restart_table.json")) as _f:
    TABLE = json.load(_f)
_count = {}
for _v in TABLE.values():
    _count[_v[0]] = _count.get(_v[0], 0) + 1
TABLE = {k: v for k, v in TABLE.items() if _count[v[0]] == 1}

# file -> list of (name in file, dims, units attribute or None); dims are the standard ones
SMALL = {
    "fv_core.res": [("u", "x_wind"), ("v", "y_wind"), ("T", "air_temperature"), ("phis", "surface_geopotential")],
    "fv_srf_wnd.res": [("u_srf", "eastward_wind_at_surface")],
    "fv_tracer.res": [("sphum", ("z", "y", "x"), "none"), ("o3mr", ("z", "y", "x"), None), ("age", ("y", "x"), "days")],
    "sfc_data": [("tsea", "surface_temperature"), ("stc", "soil_temperature"), ("hush", ("y", "x"), None)],
    "phy_data": [("cv", "convective_cloud_fraction"), ("phy_f2d_01", ("y", "x"), "none")],
}
TRACERS = {
    "one": {"specific_humidity": {"dims": ["z", "y", "x"], "units": "kg/kg", "restart_name": "sphum"}},
    "other_name": {"humidity_by_another_name": {"dims": ["z", "y", "x"], "units": "g/kg", "restart_name": "sphum"}},
    "two": {
        "ozone": {"dims": ("z", "y", "x"), "units": "ppm", "restart_name": "o3mr"},
        "tracer_age": {"dims": ["y", "x"], "units": "hours", "restart_name": "age"},
    },
    "none": {},
    "known_name": {
        "x_wind": {"dims": ["y", "x"], "units": "furlong", "restart_name": "age"},
        "specific_humidity": {"dims": ["z", "y", "x"], "units": "kg/kg", "restart_name": "sphum"},
    },
    "absent": {"not_in_files": {"dims": ["y", "x"], "units": "1", "restart_name": "nope"}},
}


def jobs(tier, seed):
    out = []
    layouts = [((1, 1), 6), ((1, 2), 5), ((2, 1), 5), ((2, 2), 4)]
    if tier == "thorough":
        layouts = [((1, 1), 8), ((1, 2), 8), ((2, 1), 8), ((2, 2), 8), ((1, 3), 8), ((3, 2), 8), ((3, 3), 8)]
    for l, parts in layouts:
        for k in range(parts):
            out.append({"layout": list(l), "part": k, "parts": parts, "weight": l[0] * l[1]})
    return out


def calls():
    """All single-call cases (dictionaries without a layout)."""
    std = ["x_wind", "y_wind", "surface_temperature", "soil_temperature", "sphum", "phy_f2d_01", "time"]
    out = []
    # which optional files exist x coupler x label
    for sfc, phy, coup, label in itertools.product((0, 1), (0, 1), (0, 1, 2, 3, 4), ("", "20160801.001500", "lab")):
        out.append(dict(sfc=sfc, phy=phy, coupler=coup, label=label))
    # name restrictions
    for k in (0, 1, 2, 3, len(std)):
        for names in itertools.combinations(std, k):
            out.append(dict(sfc=1, phy=1, coupler=2, names=names))
    # tracer properties x restrictions
    for t in TRACERS:
        for names in (None, ("specific_humidity", "time"), ("ozone", "tracer_age", "x_wind"), ("humidity_by_another_name",)):
            out.append(dict(sfc=1, phy=0, coupler=1, tracers=t, names=names))
    # receiving states
    pre = ["x_wind", "surface_temperature", "sphum", "specific_humidity"]
    for k in range(len(pre) + 1):
        for p in itertools.combinations(pre, k):
            for extra in (0, 1):
                for t in (None, "one"):
                    for coup, names in ((2, None), (0, None), (3, ("x_wind", "y_wind", "specific_humidity")), (4, ("time",))):
                        out.append(dict(sfc=1, phy=0, coupler=coup, pre=p, pre_extra=extra, tracers=t, names=names))
    # every variable of the table
    for g in range(6):
        out.append(dict(sfc=1, phy=1, coupler=1 + g % 4, table=g))
    return out


def pairs(deep):
    """Histories of two calls on one communicator."""
    base = [
        dict(sfc=1, phy=1, coupler=2),
        dict(sfc=1, phy=0, coupler=2, tracers="one"),
        dict(sfc=0, phy=0, coupler=0, label="lab", tracers="two"),
        dict(sfc=1, phy=1, coupler=4, names=("x_wind", "sphum")),
        dict(sfc=1, phy=0, coupler=3, pre=("x_wind",), pre_extra=1, label="lab"),
        dict(sfc=1, phy=0, coupler=1, again=1),
    ]
    out = [[a, b] for a in base for b in base if "again" not in a]
    # a directory (or label) whose contents changed between the calls
    more = [
        dict(sfc=0, phy=0, coupler=0, label="lab"),
        dict(sfc=1, phy=1, coupler=2, label="lab"),
        dict(sfc=1, phy=0, coupler=1, label="lab", tracers="one"),
        dict(sfc=0, phy=1, coupler=3),
        dict(sfc=1, phy=0, coupler=4),
    ]
    return out + [[a, dict(b, rewritten=1)] for a in more for b in more]


def run_job(job, rec):
    layout = tuple(job["layout"])
    n = 6 * layout[0] * layout[1]
    copies = load.copies(n)
    deep = job["tier"] == "thorough"
    cases = [[c] for c in calls()] + pairs(deep)
    for i, seq in enumerate(cases):
        if i % job["parts"] != job["part"]:
            continue
        if not deep and layout == (2, 2) and len(seq) == 1 and "table" not in seq[0] and (i // job["parts"]) % 5:
            continue
        if not deep and 1 < n // 6 < 4 and (i // job["parts"] + layout[0]) % 2:
            continue
        history(rec, job, layout, n, copies, seq, i)


counter = [0]
_tmp = []


def scratch(where):
    counter[0] += 1
    if where == "memory":
        return f"memory://c15-{os.getpid()}-{counter[0]}"
    d = tempfile.mkdtemp(prefix="verif-c15-", dir=os.environ.get("VERIF_TMP"))
    _tmp.append(d)
    return d


def cleanup(d):
    if d.startswith("memory://"):
        fs = fsspec.filesystem("memory")
        fs.rm(d[len("memory://"):], recursive=True)
    else:
        shutil.rmtree(d)


class Files:
    """The contents of one restart directory for one label, as written and as expected."""

    def __init__(self, layout, call, i, salt, k):
        self.m = ((2, 2), (2, 3), (1, 2), (3, 1))[i % 4]
        self.call = call
        self.layout = layout
        self.vars = {}  # file -> [(restart name, standard name or None, dims, units in file, values per tile)]
        lens = dict(lengths(("y", "x", "y_interface", "x_interface"), layout[0] * self.m[0], layout[1] * self.m[1]), **NZ)
        self.lens = lens
        content = {f: list(v) for f, v in SMALL.items()}
        if "table" in call:
            content = {f: [] for f in FILES}
            names = sorted(TABLE)
            for j, name in enumerate(names):
                content[FILES[(j + call["table"]) % 5]].append((TABLE[name][0], name))
        base = 1000000 * k
        for f in FILES:
            if f == "sfc_data" and not call["sfc"] or f == "phy_data" and not call["phy"]:
                continue
            out = []
            for j, entry in enumerate(content[f]):
                if len(entry) == 2:
                    rname, std = entry
                    dims, units = tuple(TABLE[std][1]), ("none", None, "s", "m", "hours since 2000-01-01")[(i + j) % 5]
                else:
                    rname, dims, units = entry
                    std = None
                dtype = ("f8", "f8", "f4", "i4")[(i + j) % 4]
                shape = tuple(lens[d] for d in dims)
                spec = Spec(dims, {d: lens[d] for d in dims}, {}, {}, dtype)
                tiles = []
                for t in range(6):
                    tiles.append(spec.values(base, salt))
                    base += spec.size
                out.append((rname, std, dims, units, tiles))
            self.vars[f] = out
        self.time = None
        if call["coupler"]:
            self.time = CAL[call["coupler"]](*[v if not (a == 2 and call["coupler"] == 4 and v == 29) else 28
                                              for a, v in enumerate(TIMES[i % 5])])

    def write(self, d, label, i):
        import scipy.io

        fs, _, _ = fsspec.get_fs_token_paths(d)
        prefix = (label + ".") if label else ""
        for f, vs in self.vars.items():
            for t in range(6):
                path = os.path.join(d, f"{prefix}{f}.tile{t + 1}.nc")
                with fs.open(path, "wb") as out:
                    import io

                    buf = io.BytesIO()
                    buf.close = lambda: None
                    nc = scipy.io.netcdf_file(buf, "w", version=1 + i % 2)
                    made = {}
                    n_times = 1 + (i % 4 == 3)  # only the first record is the restart state
                    nc.createDimension("Time", n_times)
                    tv = nc.createVariable("Time", "f8", ("Time",))
                    tv[:] = np.arange(1.0, n_times + 1)
                    tv.units = "time level"
                    for rname, std, dims, units, tiles in vs:
                        names = ["Time"]
                        for dim in dims:
                            axis = dim[0] + "axis"
                            size = self.lens[dim]
                            known = [k for k, v in made.items() if k.startswith(axis) and v == size]
                            if known:
                                names.append(known[0])
                            else:
                                new = f"{axis}_{1 + sum(k.startswith(axis) for k in made)}"
                                made[new] = size
                                nc.createDimension(new, size)
                                names.append(new)
                        v = nc.createVariable(rname, tiles[t].dtype, tuple(names))
                        v[:] = np.stack([tiles[t] + 77 * q for q in range(n_times)])
                        v.long_name = rname
                        if units is not None:
                            v.units = units
                        if len(dims) == 2 and not hasattr(v, "axes"):
                            v.checksum = "0"
                        self.filedims = getattr(self, "filedims", {})
                        self.filedims[rname] = tuple(names[1:])
                    nc.flush()
                    data = buf.getvalue()
                    out.write(data)
        if self.time is not None:
            y = self.time
            with fs.open(os.path.join(d, f"{prefix}coupler.res"), "w") as out:
                out.write(f"     {self.call['coupler']}        (Calendar: no_calendar=0, thirty_day_months=1, julian=2, gregorian=3, noleap=4)\n")
                out.write("  2015     7     1     1     2     3        Model start time:   year, month, day, hour, minute, second\n")
                out.write(f"  {y.year:4d}{y.month:6d}{y.day:6d}{y.hour:6d}{y.minute:6d}{y.second:6d}        Current model time: year, month, day, hour, minute, second\n")

    def expected(self):
        """name -> (dims, units, values per tile, decomposed?) plus time."""
        call = self.call
        tr = TRACERS[call["tracers"]] if call.get("tracers") else {}
        # tracer properties name further variables, never the known ones
        by_file_name = {p["restart_name"]: (n, tuple(p["dims"]), p["units"]) for n, p in tr.items() if n not in TABLE}
        out = {}
        for vs in self.vars.values():
            for rname, std, dims, units, tiles in vs:
                if std is not None:
                    out[std] = (tuple(TABLE[std][1]), TABLE[std][2], tiles, True)
                elif rname in by_file_name:
                    n, tdims, tunits = by_file_name[rname]
                    out[n] = (tdims, tunits, tiles, True)
                elif units is not None:
                    out[rname] = (self.filedims[rname], units, tiles, False)
        time = self.time
        names = call.get("names")
        if names is not None:
            out = {k: v for k, v in out.items() if k in names}
            if "time" not in names:
                time = None
        return out, time


def history(rec, job, layout, n, copies, seq, i):
    salt = job["seed"]
    key = {"layout": layout, "calls": [{k: v for k, v in c.items()} for c in seq], "where": ("disk", "memory")[i % 2]}
    per = layout[0] * layout[1]

    def go():
        d = scratch(key["where"])
        try:
            files, prev = [], {}
            for k, c in enumerate(seq):
                label = c.get("label", "")
                sub = os.path.join(d, f"call{k}")
                fs, _, _ = fsspec.get_fs_token_paths(sub)
                fs.makedirs(sub, exist_ok=True)
                f = Files(layout, c, i + k, salt, k + 1)
                # decoys: the same directory under another label and without one
                other = Files(layout, dict(c, sfc=1, phy=1, coupler=1, tracers=None), i + k, salt, k + 5)
                other.write(sub, "other" if not label else "", i + 1)
                f.write(sub, label, i + k)
                f.dir = sub
                files.append(f)

            def build():
                got = [[None] * n for _ in seq]
                rspecs = {}

                def rank_fn(r):
                    def fn(comm):
                        util = copies[r].util
                        part = util.CubedSpherePartitioner(util.TilePartitioner(layout))
                        cube = util.CubedSphereCommunicator(comm, part)
                        for k, (c, f) in enumerate(zip(seq, files)):
                            if c.get("rewritten"):
                                comm.Barrier()
                                if r == 0:
                                    f.dir = files[0].dir
                                    fs, _, _ = fsspec.get_fs_token_paths(f.dir)
                                    fs.rm(f.dir, recursive=True)
                                    fs.makedirs(f.dir, exist_ok=True)
                                    f.write(f.dir, c.get("label", ""), i + k)
                                comm.Barrier()
                            kw = {}
                            if c.get("label") or i % 3 == 0:
                                kw["label"] = c.get("label", "")
                            if c.get("names") is not None:
                                kw["only_names"] = (list, tuple, set, dict.fromkeys, iter)[i % 5](c["names"])
                            if c.get("tracers"):
                                kw["tracer_properties"] = {a: dict(b) for a, b in TRACERS[c["tracers"]].items()}
                            held = None
                            if "pre" in c:
                                held = {}
                                exp, _ = files[k].expected()
                                for v in c["pre"]:
                                    spec, vals = pre_spec(f, v, r, i, salt)
                                    held[v] = (spec.quantity(util, vals), spec, vals)
                                state = {v: h[0] for v, h in held.items()}
                                if c["pre_extra"]:
                                    state["time"] = cftime.DatetimeJulian(1980, 1, 1)
                                    state["extra"] = util.Quantity(np.arange(4.0), ["z"], "m")
                                kw["to_state"] = state
                            out = util.open_restart(f.dir, cube, **kw)
                            if held is not None and out is not kw["to_state"]:
                                raise Violation(f"rank {r}: the supplied state is not the one returned")
                            if c.get("tracers") and kw["tracer_properties"] != TRACERS[c["tracers"]]:
                                raise Violation("the supplied tracer properties were modified")
                            got[k][r] = (out, held)
                    return fn

                def check(w):
                    for k, c in enumerate(seq):
                        for r in range(n):
                            compare(c, files[k], r, per, *got[k][r])
                    return "ok"

                return [rank_fn(r) for r in range(n)], check

            ex = Explorer(n, build, copies, coll=("loose", "sync")[i % 2])
            try:
                ex.deviations(base=POLICIES[i % 4], bound=0)
            finally:
                rec.executions += ex.executions
                rec.transitions += ex.transitions
        finally:
            cleanup(d)

    rec.case(key, go)
    rec.sample(key)


def pre_spec(f, name, r, i, salt):
    """A receiving quantity for `name` on rank r."""
    if name in TABLE:
        dims = tuple(TABLE[name][1])
    else:
        dims = ("z", "y", "x")
    if name == "sphum" and not (f.call.get("tracers") == "one"):
        dims = f.filedims.get("sphum", ("z", "y", "x"))
        lens = dict(zip(dims, (f.lens[a] for a in ("z", "y", "x"))))
        pad = ({}, {})
    else:
        lens = dict(lengths(dims, *f.m), **NZ)
        pad = pads(dims, 1 + i % 2, r)
    dtype = None
    for vs in f.vars.values():
        for rname, std, _, _, tiles in vs:
            if name in (std, rname) or name == "specific_humidity" and rname == "sphum":
                dtype = tiles[0].dtype
    spec = Spec(dims, {d: lens[d] for d in dims}, *pad, dtype or "f8", KINDS[(i + r) % 6], "m")
    return spec, spec.values(50000000 + 1000 * r, salt)


def compare(c, f, r, per, out, held):
    exp, time = f.expected()
    tile, rr = divmod(r, per)
    want_names = set(exp)
    if held is not None:
        want_names |= set(held)
        if c["pre_extra"]:
            want_names.add("extra")
            time = time if time is not None else cftime.DatetimeJulian(1980, 1, 1)
    names = set(out) - {"time"}
    if names != want_names:
        raise Violation(f"rank {r}: variables missing {sorted(want_names - names)}, unexpected {sorted(names - want_names)}")
    got_time = out.get("time")
    if got_time != time or type(got_time) is not type(time) or ("time" in out) != (time is not None):
        raise Violation(f"rank {r}: time {got_time!r}, expected {time!r}")
    if time is not None and got_time.calendar != time.calendar:
        raise Violation(f"rank {r}: calendar {got_time.calendar}, expected {time.calendar}")
    for name in want_names:
        q = out[name]
        if name == "extra":
            if not same(q.data, np.arange(4.0)):
                raise Violation(f"rank {r}: the unrelated variable of the supplied state changed")
            continue
        if name in exp:
            dims, units, tiles, split = exp[name]
            want = tiles[tile]
            if split:
                want = want[block(dims, f.layout, f.m, rr)]
        if held is not None and name in held:
            hq, spec, vals = held[name]
            if q is not hq:
                raise Violation(f"rank {r}: supplied quantity {name} was replaced")
            full = vals.copy()
            if name in exp:
                full[tuple(slice(o, o + e) for o, e in zip(spec.origin, spec.extent))] = want
            if not same(q.data, full):
                raise Violation(f"rank {r}: supplied {name}: " + first_diff(q.data, full))
            continue
        if tuple(q.dims) != dims or q.units != units:
            raise Violation(f"rank {r}: {name} has dims {q.dims} units {q.units!r}, expected {dims} {units!r}")
        if not same(q.view[:], want):
            raise Violation(f"rank {r}: {name}: " + first_diff(np.asarray(q.view[:]), want))
