"""C20: the mock communicator agrees with MPI for ranks run one after another."""
import collections
import itertools
import math

import cftime
import numpy as np

from mc import load
from mc.core import Violation
from mc.fields import same

ID = "C20"
LEVEL = "model_checking"
RULE = (
    "a case is one program of up to 3 (thorough: 4) communication steps on 2 or 3 ranks; every interleaving of the ranks' calls "
    "(programs with too many: every interleaving with at most 2, thorough 3, voluntary switches) is executed on the real mock "
    "communicator in lock step with a model of MPI, a call that would have to wait being attempted once and repeated later; "
    "states are nodes of the schedule trees and transitions the calls executed"
)
ASSUMPTIONS = [
    "untagged messages; receives from one source complete in the order they were posted",
    "broadcasts and scatters have root 0; ranks split in ascending order and use the new communicator after all have split",
    "C-contiguous buffers of equal shape and type on both sides",
]

OBJECTS = (
    {"a": 1, "list": [1, 2, {"x": None}]}, [3, 1, 2], "text", None, 0, ("t", 1.5),
    np.arange(6.0).reshape(2, 3), cftime.DatetimeJulian(2016, 8, 1), {"dims": ("y", "x"), "extent": (1, 2)}, False,
)
DTYPES = ("f8", "i4", "f4", "?", "i8")
SHAPES = ((2,), (2, 3), (30, 40), (1, 2, 2), (3, 1))

# A step is a function (n, k) -> one list of calls per rank; k makes the contents distinct.
# Calls: (name, arguments...)


def step_bcast(n, k):
    return [[("bcast", k)] for _ in range(n)]


def step_scatter(n, k):
    return [[("scatter", k)] for _ in range(n)]


def gather_to(root):
    def step_gather(n, k):
        return [[("gather", k, min(root, n - 1))] for _ in range(n)]
    return step_gather


def step_chain(n, k):
    return [([("recv", r - 1, k)] if r else []) + ([("send", r + 1, k)] if r < n - 1 else []) for r in range(n)]


def step_pair(n, k):
    """Two messages from the last rank to the first, one sent synchronously."""
    out = [[] for _ in range(n)]
    out[n - 1] = [("send", 0, k), ("isend", 0, k + 50)]
    out[0] = [("recv", n - 1, k), ("recv", n - 1, k + 50)]
    return out


def step_exchange(n, k):
    """Non-blocking exchange around a ring, receives waited in posting order."""
    return [[("isend", (r + 1) % n, k), ("irecv", (r - 1) % n, k), ("wait",)] for r in range(n)]


def step_both(n, k):
    """Each rank receives from every other one (waits last), as a halo update does."""
    out = []
    for r in range(n):
        others = [o for o in range(n) if o != r]
        out.append([("isend", o, k + o) for o in others] + [("irecv", o, k + r) for o in others] + [("wait",)] * len(others))
    return out


def split_with(colors, inner):
    def step_split(n, k):
        out = []
        members = {}
        for r in range(n):
            members.setdefault(colors[r], []).append(r)
        inner_calls = {c: inner(len(m), k) if inner else [[] for _ in m] for c, m in members.items()}
        for r in range(n):
            m = members[colors[r]]
            calls = [("split", colors[r], k)] + [("sub", k) + c for c in inner_calls[colors[r]][m.index(r)]]
            out.append(calls + [("sizes", k)])
        return out
    return step_split


def step_own(n, k):
    """Every rank alone, under another colour each time (0 among them)."""
    return split_with(tuple((r + k // 3) % 3 for r in range(3)), step_bcast)(n, k)


def step_refused(n, k):
    return [[("refused", k)] for _ in range(n)]


STEPS = {
    "bcast": step_bcast, "scatter": step_scatter, "gather0": gather_to(0), "gather1": gather_to(1), "chain": step_chain,
    "pair": step_pair, "exchange": step_exchange, "both": step_both, "refused": step_refused,
    "split_all": split_with((5, 5, 5), step_bcast), "split_gather": split_with((0, 1, 0), gather_to(0)),
    "split_scatter": split_with((1, 1, 0), step_scatter), "split_chain": split_with((2, 2, 2), step_chain),
    "split_own": step_own, "split_none": split_with((7, 8, 7), None),
}


def jobs(tier, seed):
    out = []
    for n in (2, 3):
        parts = 8 if n == 2 else 24
        for k in range(parts):
            out.append({"n": n, "part": k, "parts": parts, "weight": n})
    return out


def programs(n, deep):
    names = list(STEPS)
    top = 3 if n == 3 else 4 if deep else 3
    for depth in range(1, top + 1):
        for p in itertools.product(names, repeat=depth):
            if n == 3 and depth == 3 and not deep and sum(s in ("exchange", "both", "pair", "chain", "split_chain") for s in p) > 1:
                continue
            yield p


def content(kind, k, who):
    """A buffer of the step's shape and type whose contents identify its sender."""
    shape, dtype = SHAPES[k % len(SHAPES)], np.dtype(DTYPES[k % len(DTYPES)])
    size = int(np.prod(shape))
    v = np.arange(size) + 7 * k + 31 * who + {"p2p": 0, "scatter": 3, "gather": 5}[kind]
    if dtype.kind == "b":
        v = (v * 2654435761 >> 4) & 1
    return v.reshape(shape).astype(dtype)


class Would(Exception):
    """The model says that the call has to wait."""


class Prune(Exception):
    """A known finding happened: what follows in this execution means nothing."""


# Outcomes of the known findings, as recorded in known-findings.jsonl (signature: what).
# Each names one call site and the exact wrong outcome; anything else is a violation.
EARLY = {"bcast": "C20:early bcast raises IndexError", "scatter": "C20:early Scatter raises IndexError",
         "recv": "C20:early Recv raises IndexError", "wait": "C20:early Recv raises IndexError"}
SHARED = "C20:bcast hands out the root's own object"
SLOT = "C20:Gather uses one slot per rank for all gathers"
UNSHARED = "C20:Split gives every rank a communicator of its own"


class Slots:
    """What one slot per rank, overwritten by every Gather, would deliver."""

    def __init__(self):
        self.slot = {}

    def gather(self, n, rank, root, value):
        self.slot[rank] = np.array(value)
        if rank != root:
            return None
        if len(self.slot) < n:
            return "early"
        try:
            return np.stack([np.broadcast_to(self.slot[r], value.shape).astype(value.dtype) for r in range(n)])
        except ValueError:
            return "error"


class Model:
    """MPI with eager messages, for one communicator."""

    def __init__(self, n):
        self.n = n
        self.queue = {}
        self.i = {}
        self.bcasts, self.scatters, self.gathers = [], [], []
        self.slots = Slots()
        self.shared = set()  # broadcasts known to hand out one object to all ranks

    def next(self, kind, rank):
        return self.i.get((kind, rank), 0)

    def done(self, kind, rank):
        self.i[kind, rank] = self.next(kind, rank) + 1

    def send(self, src, dst, value):
        self.queue.setdefault((src, dst), []).append(np.array(value))

    def recv(self, src, dst):
        q = self.queue.get((src, dst))
        if not q:
            raise Would()
        return q.pop(0)

    def rooted(self, kind, store, rank, value):
        j = self.next(kind, rank)
        if rank == 0:
            store.append(value)
        if j >= len(store):
            raise Would()
        self.done(kind, rank)
        return store[j]

    def gather(self, rank, root, value):
        j = self.next("gather", rank)
        while j >= len(self.gathers):
            self.gathers.append({})
        self.gathers[j][rank] = np.array(value)
        if rank == root and len(self.gathers[j]) < self.n:
            raise Would()
        self.done("gather", rank)
        return [self.gathers[j][r] for r in range(self.n)] if rank == root else None


class Run:
    """One execution: real mock communicators and the model in lock step."""

    def __init__(self, testing, prog, known):
        self.prog = prog
        self.known = known  # known(signature, message): prune or raise Violation
        n = len(prog)
        self.n = n
        self.testing = testing
        shared = {}
        self.comms = [testing.DummyComm(r, n, shared) for r in range(n)]
        self.model = Model(n)
        self.pc = [0] * n
        self.tried = set()
        self.pending = [[] for _ in range(n)]
        self.subs = [dict() for _ in range(n)]  # k -> (comm, model, rank in group)
        self.sub_models = {}
        self.split_count = {}
        self.own_splits = [[] for _ in range(n)]  # colours this rank split with before, and the results
        self.split_now = collections.defaultdict(list)
        self.held = []

    def options(self):
        out = []
        for r in range(self.n):
            if self.pc[r] >= len(self.prog[r]) or (r, self.pc[r]) in self.tried and not self.ready(r):
                continue
            call = self.prog[r][self.pc[r]]
            if call[0] == "split" and self.split_count.get(call[2], 0) != r:
                continue
            if call[0] in ("sub", "sizes") and self.split_count.get(call[1], 0) < self.n:
                continue
            out.append(r)
        return out

    def ready(self, r):
        """Would the model let the next call of rank r complete?"""
        call = self.prog[r][self.pc[r]]
        model, rank = self.model, r
        if call[0] == "sub":
            _, model, rank = self.subs[r][call[1]]
            call = call[2:]
        if call[0] == "recv":
            return bool(model.queue.get((call[1], rank)))
        if call[0] == "wait":
            m, src, dst = self.pending[r][0][1:4]
            return bool(m.queue.get((src, dst)))
        if call[0] in ("bcast", "scatter"):
            store = model.bcasts if call[0] == "bcast" else model.scatters
            return rank == 0 or model.next(call[0], rank) < len(store)
        if call[0] == "gather":
            j = model.next("gather", rank)
            have = model.gathers[j] if j < len(model.gathers) else {}
            return rank != call[2] or len(have.keys() | {rank}) == model.n
        return True

    def step(self, r):
        call = self.prog[r][self.pc[r]]
        where = f"rank {r} call {self.pc[r]} {call}"
        ready = self.ready(r)
        try:
            self.execute(r, self.comms[r], self.model, r, call, where, ready)
        except self.testing.ConcurrencyError as err:
            if ready:
                raise Violation(f"{where}: raised ConcurrencyError ({err}) although everything it needs was sent")
            self.tried.add((r, self.pc[r]))
            return
        except IndexError as err:
            kind = call[2] if call[0] == "sub" else call[0]
            if ready or kind not in EARLY:
                raise
            self.known(EARLY[kind], f"{where}: raised IndexError ({err}) instead of ConcurrencyError",
                       prune=kind in ("bcast", "scatter"))
            self.tried.add((r, self.pc[r]))
            return
        if not ready:
            raise Violation(f"{where}: returned although it had to wait for another rank")
        self.pc[r] += 1

    def execute(self, r, comm, model, rank, call, where, ready):
        kind = call[0]
        if kind == "sub":
            comm, model, rank = self.subs[r][call[1]]
            return self.execute(r, comm, model, rank, call[2:], where, ready)
        if kind == "split":
            new = comm.Split(color=call[1], key=rank)
            k = call[2]
            group = self.sub_models.setdefault((k, call[1]), [Model(0), 0])
            self.subs[r][k] = (new, group[0], group[1])
            group[0].n += 1
            group[1] += 1
            self.split_count[k] = self.split_count.get(k, 0) + 1
            mine = [x for kk, x in self.own_splits[r] if kk == call[1]]
            self.own_splits[r].append((call[1], new))
            self.split_now[k].append((new, group[0], self.subs[r][k][2], mine))
            if self.split_count[k] == self.n:
                self.check_split(k, where)
        elif kind == "sizes":
            new, m, sub_rank = self.subs[r][call[1]]
            if (new.Get_rank(), new.Get_size()) != (sub_rank, m.n):
                raise Violation(f"{where}: rank, size of the new communicator {new.Get_rank(), new.Get_size()}, expected {sub_rank, m.n}")
            if (comm.Get_rank(), comm.Get_size()) != (r, self.n):
                raise Violation(f"{where}: rank, size of the old communicator changed")
        elif kind in ("send", "isend"):
            value = content("p2p", call[2], rank)
            want = value.copy()
            if kind == "send":
                comm.Send(value, dest=call[1])
            else:
                req = comm.Isend(value, dest=call[1])
                req.wait()
            if not same(value, want):
                raise Violation(f"{where}: the sent buffer was modified")
            model.send(rank, call[1], want)
            value[...] = 0
        elif kind == "recv":
            buf = np.zeros_like(content("p2p", call[2], 0))
            comm.Recv(buf, source=call[1])
            if not ready:
                return
            self.compare(buf, model.recv(call[1], rank), where)
        elif kind == "irecv":
            buf = np.zeros_like(content("p2p", call[2], 0))
            self.pending[r].append((comm.Irecv(buf, source=call[1]), model, call[1], rank, buf))
        elif kind == "wait":
            req, m, src, dst, buf = self.pending[r][0]
            req.wait()
            if not ready:
                return
            self.pending[r].pop(0)
            self.compare(buf, m.recv(src, dst), where)
        elif kind == "bcast":
            obj = OBJECTS[call[1] % len(OBJECTS)]
            given = clone(obj) if rank == 0 else ("ignored", rank)
            got = comm.bcast(given)
            if not ready:
                return
            model.rooted("bcast", model.bcasts, rank, obj)
            if not equal(got, obj):
                raise Violation(f"{where}: broadcast returned {got!r}, expected {obj!r}")
            if got is given and rank == 0 and isinstance(obj, (dict, list, np.ndarray)):
                self.known(SHARED, f"{where}: the root received the very object it broadcast, which the others will receive too", prune=False)
                model.shared.add(model.next("bcast", rank))
            if model.next("bcast", rank) not in model.shared:
                spoil(given)
                spoil(got)
        elif kind == "scatter":
            value = np.stack([content("scatter", call[1], d) for d in range(model.n)]) if rank == 0 else None
            buf = np.zeros_like(content("scatter", call[1], 0))
            comm.Scatter(value, buf, root=0)
            if not ready:
                return
            model.rooted("scatter", model.scatters, rank, True)
            self.compare(buf, content("scatter", call[1], rank), where)
            if value is not None:
                value[...] = 0
        elif kind == "gather":
            value = content("gather", call[1], rank)
            root = min(call[2], model.n - 1)
            buf = np.zeros((model.n,) + value.shape, value.dtype) if rank == root else None
            copy = value.copy()
            slot = model.slots.gather(model.n, rank, root, copy)
            failure = None
            try:
                comm.Gather(value, buf, root=root)
            except Exception as err:  # noqa: B902
                failure = err
            value[...] = 0
            try:
                want = model.gather(rank, root, copy)
            except Would:
                want = None
            want = None if want is None else np.stack(want)
            if rank == root and not isinstance(failure, self.testing.ConcurrencyError):
                # a call that returned or failed
                right = failure is None and ready and same(buf, want)
                if not right and (isinstance(slot, str) and slot == "error" and isinstance(failure, ValueError)
                                  or isinstance(slot, np.ndarray) and failure is None and same(buf, slot)):
                    self.known(SLOT, f"{where}: gathered what was sent to another gather")
            if failure is not None:
                raise failure
            if ready and rank == root:
                self.compare(buf, want, where)
        elif kind == "refused":
            self.refused(comm, rank, call[1], where)

    def check_split(self, k, where):
        """All ranks have split: every member knows its place in its group."""
        bad = [(new, m, rank, mine) for new, m, rank, mine in self.split_now[k] if (new.Get_rank(), new.Get_size()) != (rank, m.n)]
        if not bad:
            return
        for new, m, rank, mine in bad:
            if (new.Get_rank(), new.Get_size()) != (len(mine), len(mine) + 1):
                raise Violation(f"{where}: rank, size of a new communicator {new.Get_rank(), new.Get_size()}, expected {rank, m.n}")
        self.known(UNSHARED, f"{where}: every rank got a communicator of its own")

    def refused(self, comm, rank, k, where):
        """Buffers that MPI refuses (not contiguous) are refused and nothing is sent."""
        bad = np.zeros((4, 4))[1:3, 1:3]
        other = (rank + 1) % self.n
        for name, f in (("Send", lambda: comm.Send(bad, dest=other)), ("Isend", lambda: comm.Isend(bad, dest=other)),
                        ("Recv", lambda: comm.Recv(bad, source=other)),
                        ("Gather", lambda: comm.Gather(bad, np.zeros((self.n, 2, 2)) if rank == 0 else None, root=0)),
                        ("Scatter", lambda: comm.Scatter(np.zeros((self.n, 2, 2)) if rank == 0 else None, bad, root=0))):
            try:
                f()
            except self.testing.ConcurrencyError as err:
                raise Violation(f"{where}: {name} with a non-contiguous buffer raised {err!r}")
            except Exception:
                continue
            raise Violation(f"{where}: {name} accepted a non-contiguous buffer")

    def compare(self, got, want, where):
        if not same(got, want):
            raise Violation(f"{where}: received {got.tolist()}, expected {want.tolist()}")
        # what was received must not be changed by anything that happens later
        self.held.append((got, want.copy(), where))

    def finish(self):
        for r in range(self.n):
            if self.pc[r] < len(self.prog[r]):
                raise Violation(f"rank {r} could not finish: stuck at {self.prog[r][self.pc[r]]}")
        for got, want, where in self.held:
            if not same(got, want):
                raise Violation(f"{where}: what was received changed later to {got.tolist()}, was {want.tolist()}")


def clone(obj):
    if isinstance(obj, np.ndarray):
        return obj.copy()
    if isinstance(obj, dict):
        return {k: clone(v) for k, v in obj.items()}
    if isinstance(obj, list):
        return [clone(v) for v in obj]
    return obj


def equal(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return same(a, b)
    return a == b


def spoil(obj):
    if isinstance(obj, np.ndarray):
        obj[...] = -1
    elif isinstance(obj, dict):
        for v in obj.values():
            spoil(v)
        obj["spoiled"] = True
    elif isinstance(obj, list):
        for v in obj:
            spoil(v)
        obj.append("spoiled")


def expand(names, n):
    prog = [[] for _ in range(n)]
    for j, name in enumerate(names):
        for r, calls in enumerate(STEPS[name](n, 3 * j + len(names) + n)):
            prog[r] += calls
    return prog


def explore(rec, testing, prog, bound):
    """All schedules (choice sequences) with at most `bound` voluntary switches."""
    stack = [[]]
    total = pruned = 0

    def known(sig, what, prune=True):
        if not rec.is_known(sig):
            raise Violation(what, sig)
        if prune:
            raise Prune(sig)

    while stack:
        prefix = stack.pop()
        run = Run(testing, prog, known)
        last, switches, trace = None, 0, []
        while True:
            opts = run.options()
            if not opts:
                run.finish()
                break
            # the default is to go on with the rank that ran last
            free = last in opts
            order = ([last] if free else []) + [o for o in opts if o != last]
            if len(trace) < len(prefix):
                r = prefix[len(trace)]
            else:
                r = order[0]
                for o in order[1:]:
                    if not free or bound is None or switches < bound:
                        stack.append(trace + [o])
            if free and r != last:
                switches += 1
            trace.append(r)
            if len(trace) > len(prefix):
                rec.states += 1
            rec.transitions += 1
            try:
                run.step(r)
            except Prune:
                pruned += 1
                break
            last = r
        total += 1
    rec.count("executions_cut_short_by_a_known_finding", pruned)
    rec.executions += total
    rec.traces += total
    return total


def interleavings(prog):
    lens = [len(p) for p in prog]
    out = math.factorial(sum(lens))
    for k in lens:
        out //= math.factorial(k)
    return out


def run_job(job, rec):
    load.util()
    import fv3gfs.util.testing as testing

    n = job["n"]
    deep = job["tier"] == "thorough"
    for i, names in enumerate(programs(n, deep)):
        if i % job["parts"] != job["part"]:
            continue
        prog = expand(names, n)
        full = interleavings(prog) <= (20000 if deep else 100)
        bound = None if full else (2 if deep else 1)

        def go():
            explore(rec, testing, prog, bound)

        rec.case({"n": n, "steps": names}, go)
        rec.count("fully_interleaved" if full else "switch_bounded")
        rec.sample({"n": n, "steps": names})
