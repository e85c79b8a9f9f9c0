"""C27: repeating operations accumulates no memory, descriptors or files."""
import collections
import contextlib
import copy
import datetime
import gc
import itertools
import os
import pickle
import shutil
import sys
import tempfile
import threading
import tracemalloc
import types

import cftime
import numpy as np

from mc import load
from mc.core import Recorder, Violation
from mc.props import c15
from mc.world import Comm, World
from mc.explore import POLICIES, policy, run_world, verdict

ID = "C27"
LEVEL = "exploration"
RULE = (
    "every cycle of one or two [three] operations, valid or rejected, repeated: after a few repetitions the traced memory, "
    "open descriptors, temporary files and threads of the process must not grow from one group of repetitions to the next; "
    "local operations in one process, communication between simulated ranks under two schedules; distinct = distinct cycles"
)
ASSUMPTIONS = [
    "growth means: more in each of four successive groups of repetitions, by at least the smallest amount one repetition could keep",
    "output is discarded: what a store or file holds does not count",
]
NOW = cftime.DatetimeJulian(2016, 8, 1, 0, 15)
WARM, GROUPS, PER = 1, 4, 12
LEAST = 24  # bytes kept per repetition


class Sink(dict):
    """A Zarr store that keeps the metadata only."""

    def __setitem__(self, key, value):
        if key.rsplit("/", 1)[-1].startswith(".z"):
            dict.__setitem__(self, key, bytes(value))


class Bad(Exception):
    pass


def refused(fn, *errors):
    try:
        fn()
    except errors or Exception:
        return
    raise Violation("an invalid operation was accepted")


def quantity(u, dims=("z", "y", "x"), n=12, halo=3, base=0.0, dtype="f8", order="C"):
    size = {d: n + d.endswith("interface") for d in dims}
    size.update(z=2)
    pad = {d: 0 if d == "z" else halo for d in dims}
    shape = [size[d] + 2 * pad[d] for d in dims]
    a = np.zeros(shape, dtype, order=order) + np.dtype(dtype).type(base)
    return u.Quantity(np.asarray(a, order=order), dims, "m", origin=[pad[d] for d in dims], extent=[size[d] for d in dims])


class Local:
    """Objects a process keeps and the operations it repeats on them."""

    def __init__(self, u, scratch):
        self.u, self.dir = u, scratch
        self.q = quantity(u)
        self.big = np.zeros((40, 50))
        self.part = u.CubedSpherePartitioner(u.TilePartitioner((2, 2)))
        self.sizer = u.SubtileGridSizer.from_tile_params(nx_tile=8, ny_tile=8, nz=2, n_halo=3, extra_dim_lengths={"a": 2}, layout=(1, 1))
        self.factory = u.QuantityFactory(self.sizer, np)
        self.timer = u.Timer()
        self.timer.start("running")
        self.null = u.NullTimer()
        self.state = {"a": quantity(u, base=1), "b": quantity(u, ("y", "x_interface"), base=2)}
        self.ref = {"a": quantity(u, base=3), "b": quantity(u, ("y", "x_interface"), base=4)}
        self.xy = quantity(u, ("x", "y_interface", "z"))
        self.mon = u.ZarrMonitor(Sink(), u.CubedSpherePartitioner(u.TilePartitioner((1, 1))))
        self.time, self.count = NOW, 0
        self.mon.store({"time": NOW, **self.state})
        self.path = os.path.join(scratch, "s.nc")
        u.write_state({"time": NOW, **self.state}, self.path)
        self.stream = open(os.path.join(scratch, "out"), "w")
        shared = {}
        self.comms = [u.testing.DummyComm(r, 2, shared) for r in range(2)]

    # each operation is one repetition
    def make(self):
        self.u.Quantity(self.big, ["y", "x"], "m", origin=(1, 1), extent=(5, 5)).view[0, 0] = 1.0

    def make_refused(self):
        refused(lambda: self.u.Quantity(self.big, ["y"], "m"))

    def read(self):
        q = self.q
        q.view[:], q.values, q.attrs, q.metadata.dim_lengths, q.data_array, q.sel(x=0), q.view.interior[0, 0:1, 0:1]

    def from_array(self):
        self.u.Quantity.from_data_array(self.q.data_array)

    def write(self):
        self.q.view[:] = 2.0
        self.q.view.southwest[0, 0:1, 0:1] = 3.0

    def outside(self):
        refused(lambda: self.q.view[0, 0, 0, 0])
        refused(lambda: self.q.transpose(["x", "y", "nothing"]))

    def transpose(self):
        self.q.transpose(["x", "y", "z"]).transpose([self.u.Z_DIMS, self.u.Y_DIMS, self.u.X_DIMS])

    def copies(self):
        copy.deepcopy(self.q)
        pickle.loads(pickle.dumps(self.q))

    def allocate(self):
        for f in ("zeros", "ones", "empty"):
            getattr(self.factory, f)(["x", "y_interface", "z", "a"], "m", dtype=np.float32)

    def allocate_refused(self):
        refused(lambda: self.factory.zeros(["x", "unknown"], "m"))

    def sizes(self):
        self.sizer.get_shape(["x", "y"]), self.sizer.get_origin(["x", "z"]), self.sizer.get_extent(["a"])
        self.u.SubtileGridSizer.from_namelist({"fv_core_nml": {"npx": 9, "npy": 9, "npz": 2, "layout": [2, 1]}})

    def boundaries(self):
        for r in range(24):
            for b in (self.u.WEST, self.u.NORTHEAST):
                self.part.boundary(b, r)
        m = self.q.metadata
        self.part.global_extent(m), self.part.subtile_slice(3, ("tile",) + m.dims, (6, 2, 24, 24)), self.part.tile.subtile_extent(m)

    def partitioners(self):
        tile = self.u.TilePartitioner((2, 2))
        tile.boundary(self.u.WEST, 1), self.u.CubedSpherePartitioner(tile).boundary(self.u.NORTH, 5)
        self.u.CubedSpherePartitioner.from_namelist({"fv_core_nml": {"layout": [1, 1]}}).boundary(self.u.EAST, 5)

    def boundary_views(self):
        b = self.part.boundary(self.u.WEST, 3)
        b.send_view(self.q, 3), b.recv_view(self.q, 2)

    def nudge(self):
        self.u.apply_nudging(self.state, self.ref, {"a": datetime.timedelta(hours=1), "b": datetime.timedelta(hours=2)}, datetime.timedelta(seconds=9))

    def nudge_refused(self):
        refused(lambda: self.u.apply_nudging(self.state, {}, {"a": datetime.timedelta(hours=1)}, datetime.timedelta(seconds=9)))

    def corners(self):
        for r, d in ((0, "x"), (3, "y")):
            self.u.fill_scalar_corners(self.xy, d, self.part.tile, r, 2)

    def timing(self):
        self.timer.start("a")
        self.timer.stop("a")
        with self.timer.clock("b"):
            pass
        self.timer.times, self.timer.hits
        with self.null.clock("b"):
            pass

    def timing_refused(self):
        refused(lambda: self.timer.start("running"))
        refused(lambda: self.timer.stop("idle"))
        with contextlib.suppress(Bad):
            with self.timer.clock("c"):
                raise Bad

    def capture(self):
        with self.u.capture_stream(self.stream):
            self.stream.write("some output" * 9)

    def capture_raises(self):
        with contextlib.suppress(Bad):
            with self.u.capture_stream(self.stream), self.u.capture_stream(self.stream):
                raise Bad

    def buffers(self):
        with self.u.array_buffer(np.zeros, (30, 20), np.float64), self.u.array_buffer(np.zeros, (30, 20), np.float64):
            pass
        with self.u.send_buffer(np.empty, self.big[:, ::2]), self.u.recv_buffer(np.empty, self.big[::2, 1:]):
            pass

    def buffers_raise(self):
        for f in (lambda: self.u.array_buffer(np.zeros, (30, 20), np.float64), lambda: self.u.recv_buffer(np.empty, self.big[::3, 1:])):
            with contextlib.suppress(Bad):
                with f():
                    raise Bad

    def write_state(self):
        self.u.write_state({"time": NOW, **self.state}, self.path)

    def write_refused(self):
        refused(lambda: self.u.write_state(dict(self.state), self.path))

    def read_state(self):
        self.u.read_state(self.path)

    def read_refused(self):
        refused(lambda: self.u.read_state(os.path.join(self.dir, "absent.nc")))
        refused(lambda: self.u.read_state(os.path.join(self.dir, "out")))

    def store(self):
        self.time += datetime.timedelta(minutes=1)
        self.mon.store({"time": self.time, **self.state})

    def store_refused(self):
        refused(lambda: self.mon.store({"time": NOW, "a": self.state["a"]}))
        refused(lambda: self.mon.store({"time": NOW, "a": self.state["b"], "b": self.state["a"]}))

    def write_unwritable(self):
        q = self.u.Quantity(np.zeros((3, 4), dtype=complex), ["y", "x"], "m")
        refused(lambda: self.u.write_state({"time": NOW, "a": q}, os.path.join(self.dir, "n.nc")))

    def times(self):
        self.count += 1
        self.u.datetime64_to_datetime(np.datetime64("2016-08-01T00:15:00") + np.timedelta64(self.count, "m"))
        self.u.units_are_equal("m", " m")
        refused(lambda: self.u.ensure_equal_units("m", "s"))

    def mock(self):
        a = np.zeros(60)
        self.comms[0].Isend(a, dest=1)
        self.comms[0].Send(a, dest=1)
        self.comms[1].Recv(a, source=0)
        self.comms[1].Irecv(a, source=0).wait()


LOCAL = [n for n in vars(Local) if not n.startswith("_")]


class Ranks:
    """The same for one rank of six (or twenty-four)."""

    def __init__(self, u, comm, rank, layout):
        self.u, self.comm, self.rank, self.layout = u, comm, rank, layout
        self.c = u.CubedSphereCommunicator(comm, u.CubedSpherePartitioner(u.TilePartitioner(layout)))
        self.q = quantity(u, base=rank)
        self.f = quantity(u, ("x", "z", "y"), base=rank, order="F", dtype="f4")
        self.v = quantity(u, ("x", "z", "y"), base=rank, order="F", dtype="f4")
        self.x = quantity(u, ("z", "y_interface", "x"), base=rank)
        self.y = quantity(u, ("z", "y", "x_interface"), base=rank)
        self.kept = self.c.gather(self.q)
        self.tile = self.c.tile.gather(self.q)

    def halo(self):
        self.c.halo_update(self.q, 3)

    def halo_f(self):
        self.c.halo_update(self.f, 2)

    def vector(self):
        self.c.vector_halo_update(self.f, self.v, 2)

    def sync(self):
        self.c.synchronize_vector_interfaces(self.x, self.y)

    def several(self):
        a = self.c.start_halo_update(self.q, 2)
        b = self.c.start_vector_halo_update(self.f, self.v, 3)
        d = self.c.start_synchronize_vector_interfaces(self.x, self.y)
        for r in (a, b, d):
            r.wait()

    def reversed(self):
        a = self.c.start_halo_update(self.q, 2)
        b = self.c.start_halo_update(self.f, 3)
        d = self.c.start_vector_halo_update(self.f, self.v, 1)
        for r in (d, b, a):
            r.wait()

    def halo_refused(self):
        refused(lambda: self.c.halo_update(self.q, 0))
        refused(lambda: self.c.start_vector_halo_update(self.f, self.v, 0))
        refused(lambda: self.c.synchronize_vector_interfaces(self.q, self.q))

    def another(self):
        """A communicator made when needed (asking for its tile would split MPI's, which is never freed)."""
        c = self.u.CubedSphereCommunicator(self.comm, self.u.CubedSpherePartitioner(self.u.TilePartitioner(self.layout)))
        c.halo_update(self.q, 1)

    def gather(self):
        self.c.gather(self.q)
        self.c.tile.gather(self.q, recv_quantity=self.tile)

    def scatter(self):
        self.c.scatter(self.kept)
        self.c.tile.scatter(self.tile, recv_quantity=self.q)

    def state(self):
        s = self.c.tile.gather_state({"time": NOW, "a": self.q, "x": self.x})
        self.c.tile.scatter_state(s)

    def scatter_refused(self):
        if self.rank == 0:
            refused(lambda: self.c.scatter(None))

    def restart(self):
        self.u.open_restart(FILES, self.c, only_names=("time", "x_wind", "surface_geopotential", "surface_temperature"))

    def restart_refused(self):
        if self.c.partitioner.tile.total_ranks == 1:
            refused(lambda: self.u.open_restart(FILES + "absent", self.c))

    def tiles(self):
        self.c.tile, self.c.boundaries


WORLD = [n for n in vars(Ranks) if not n.startswith("_")]


def jobs(tier, seed):
    deep = tier == "thorough"
    out = []
    for k in range(16):
        out.append({"what": "local", "part": k, "parts": 16, "deep": deep, "weight": 30 if deep else 10})
    for k in range(16):
        out.append({"what": "world", "layout": [1, 1], "part": k, "parts": 16, "deep": deep, "weight": 20})
    for n in WORLD if deep else ("gather", "scatter", "state"):  # ranks that share a tile
        out.append({"what": "world", "layout": [2, 2], "part": 0, "parts": 1, "deep": False, "only": [n], "weight": 40})
    return out


def cycles(names, deep):
    """Sequences up to rotation: repeating (a, b) and (b, a) is the same."""
    for k in range(1, 4 if deep else 3):
        yield from itertools.combinations(names, k)


TRASH = KEPT = FILES = None


WHAT = ("bytes", "descriptors", "files", "threads", "objects")


def held(roots):
    """How many objects and items are reachable from the roots, through the library's own modules and classes only."""
    seen, todo, total = set(), list(roots), 0
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, (str, int, float, bytes, np.ndarray, np.generic, World, Comm, type(None))):
            continue
        seen.add(id(o))
        if isinstance(o, types.ModuleType):
            if not o.__name__.startswith("fv3gfs"):
                continue
            todo.extend(v for k, v in vars(o).items() if not k.startswith("__"))
        elif isinstance(o, types.FunctionType):
            todo.extend(x for x in (o.__defaults__, o.__kwdefaults__, o.__dict__, o.__closure__) if x)
        elif isinstance(o, type) and not o.__module__.startswith("fv3gfs"):
            continue
        else:
            if isinstance(o, (dict, list, set, tuple, frozenset, collections.deque)):
                total += len(o)
            todo.extend(gc.get_referents(o))
    return total + len(seen)


class Usage:
    """What the process holds after every group of repetitions; the table itself is made beforehand."""

    def __init__(self, per):
        self.least = [LEAST * per, 1, 1, 1, per]
        self.table = np.zeros((96, len(WHAT)), dtype=np.int64)
        self.n = 0

    def note(self, roots):
        gc.collect()
        sys._clear_type_cache()  # it keeps the attribute names looked up last
        row = self.table[self.n]
        self.n += 1
        row[1] = len(os.listdir("/proc/self/fd"))
        row[2] = sum(len(os.listdir(d)) for d in (TRASH, KEPT))
        row[3] = threading.active_count()
        row[4] = held(roots)
        gc.collect()
        row[0] = tracemalloc.get_traced_memory()[0]

    def grows(self):
        """What grew in every one of the last groups: (name, values) or None."""
        last = self.table[max(0, self.n - GROUPS - 1) : self.n]
        for k, name in enumerate(WHAT):
            if (np.diff(last[:, k]) >= self.least[k]).all():
                return name, last[:, k].tolist()
        return None

    def more(self, limit=64):
        """Growth must be confirmed by going on: caches fill up eventually."""
        return self.n < WARM + GROUPS or self.n < limit and self.grows() is not None

    def verdict(self, cycle, per):
        g = self.grows()
        if g:
            raise Violation(f"repeating {', '.join(cycle)}: {g[0]} grow with every {per} repetitions: {g[1]}")


def repeat(it, cycle, count):
    for _ in range(count):
        for n in cycle:
            getattr(it, n)()


def local(rec, cycle, it):
    per = PER if len(cycle) == 1 else PER // 3
    use = Usage(per)
    while use.more():
        repeat(it, cycle, per)
        use.note([it])
        rec.transitions += per * len(cycle)
    rec.traces += 1
    use.verdict(cycle, per)


def world(rec, cycle, layout, pol):
    n = 6 * layout[0] * layout[1]
    copies = load.copies(n)
    per = 2
    its = [None] * n
    use = Usage(per)

    def rank_fn(r):
        def run(comm):
            its[r] = it = Ranks(copies[r].util, comm, r, tuple(layout))
            go = True
            while go:
                repeat(it, cycle, per)
                comm.Barrier()
                if r == 0:
                    w = World.current
                    w.requests[:] = [q for q in w.requests if not q.waited]
                    use.note((its[0], its[-1]))
                    go = use.more(24)
                go = comm.bcast(go, root=0)
                comm.Barrier()
        return run

    w = run_world(n, [rank_fn(r) for r in range(n)], copies, chooser=policy(pol), mode="eager", coll="sync")
    rec.executions += 1
    rec.transitions += w.n_steps
    v = verdict(w, False)
    if v is not None:
        raise v
    use.verdict(cycle, per)


def run_job(job, rec):
    global TRASH, KEPT, FILES
    TRASH = tempfile.mkdtemp(prefix="c27-")
    old = tempfile.tempdir
    tempfile.tempdir = TRASH
    base = KEPT = tempfile.mkdtemp(prefix="c27s-", dir=os.path.dirname(TRASH))
    try:
        names = LOCAL if job["what"] == "local" else WORLD
        if job["what"] == "world":
            FILES = os.path.join(base, "restart")
            os.mkdir(FILES)
            c15.Files(tuple(job["layout"]), {"sfc": 1, "phy": 1, "coupler": 2}, 0, 1, 1).write(FILES, "", 0)
        todo = [tuple(job["only"])] if "only" in job else list(cycles(names, job["deep"]))
        tracemalloc.start()
        if job["what"] == "local":
            it = Local(load.util(), base)
            for _ in range(4):  # fills the interpreter's and the libraries' own caches
                repeat(it, names, 10)
                gc.collect()
        else:
            with contextlib.suppress(Exception):
                world(Recorder(job), job.get("only", names), job["layout"], POLICIES[0])
        gc.collect()
        gc.freeze()  # collections look at what the repetitions made
        for i, cycle in enumerate(todo):
            if i % job["parts"] != job["part"]:
                continue
            if job["what"] == "local":
                rec.case({"cycle": cycle}, lambda: local(rec, cycle, it))
            else:
                pol = POLICIES[:2][i % 2]
                rec.case({"cycle": cycle, "layout": job["layout"], "pol": pol}, lambda: world(rec, cycle, job["layout"], pol))
        rec.sample({"what": job["what"], "cycle": cycle})
    finally:
        gc.unfreeze()
        tracemalloc.stop()
        tempfile.tempdir = old
        shutil.rmtree(TRASH, ignore_errors=True)
        shutil.rmtree(base, ignore_errors=True)
