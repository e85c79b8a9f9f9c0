"""A simulated MPI under a controlled scheduler.

Every rank runs the real code in its own thread with its own copy of the package; exactly
one thread runs at a time.  Every communication call (and every store access) is a
scheduling point: the rank announces the operation, the scheduler picks an enabled rank.

MPI semantics modelled (validated against mpi4py 3.0.3, see DESIGN.md):
  * point-to-point: per (communicator, source, destination) FIFO with tag matching,
    posted receives match in posting order, ANY_SOURCE / ANY_TAG;
    raw bytes in memory order, contiguous buffers only, truncation is an error;
  * standard sends are either `eager` (buffered: complete locally) or `rendezvous`
    (complete only when the matching receive is posted).  In `late` mode the payload is
    read from the user's buffer when the message is matched, not when it is posted;
  * collectives: `loose` (the root of a broadcast/scatter does not wait, non-roots of a
    gather do not wait) or `sync` (everybody waits); mismatched collectives are errors;
  * object broadcast returns an unpickled copy on every rank including the root.
"""
import os
import pickle
import threading

import numpy as np

ANY = -1


class Abort(BaseException):
    pass


class MPIError(Exception):
    pass


class Op:
    __slots__ = ("kind", "pid", "accesses", "enabled", "execute", "label")

    def __init__(self, kind, pid, accesses, execute, enabled=None, label=None):
        self.kind = kind
        self.pid = pid
        self.accesses = accesses  # tuple of (resource, is_write)
        self.execute = execute
        self.enabled = enabled
        self.label = label if label is not None else kind


def _true():
    return True


class Proc:
    def __init__(self, world, pid, fn, copy):
        self.world = world
        self.pid = pid
        self.fn = fn
        self.copy = copy
        self.lock = threading.Lock()
        self.lock.acquire()
        self.pending = None
        self.done = False
        self.exc = None
        self.result = None
        self.clock = None
        self.n_ops = 0
        self.thread = threading.Thread(target=self._main, daemon=True)

    def _main(self):
        self.lock.acquire()
        w = self.world
        try:
            if w.aborted:
                raise Abort()
            self.pending = None
            self.result = self.fn(w.comm(self.pid))
        except Abort:
            pass
        except BaseException as err:  # noqa
            self.exc = err
            import traceback

            self.tb = traceback.format_exc()
        self.done = True
        self.pending = None
        if self.copy is not None:
            self.copy.capture_new()
        w._finished(self)


class Deadlock(Exception):
    pass


class ReplayDivergence(Exception):
    pass


class Step:
    __slots__ = ("pid", "label", "accesses", "enabled", "clock", "pendings", "races")


class World:
    """One execution."""

    current = None

    def __init__(self, n, copies=None, chooser=None, mode="rendezvous", coll="loose",
                 late=True, track=False, horizon=200000):
        self.n = n
        self.copies = copies
        self.chooser = chooser
        self.rendezvous = mode == "rendezvous"
        self.sync_coll = coll == "sync"
        self.late = late
        self.track = track
        self.horizon = horizon
        self.aborted = False
        self.abort_reason = None
        self.problems = []
        self.trace = []
        self.n_steps = 0
        self.n_switch = 0
        self.comms = {}
        self.requests = []
        self.running = None
        self.done_lock = threading.Lock()
        self.done_lock.acquire()
        self._comm0 = _CommState(self, 0, list(range(n)))
        self.next_comm_id = 1
        self._handles = [Comm(self, self._comm0, r) for r in range(n)]
        self.store_log = []
        # happens-before / race tracking
        self.last_write = {}
        self.last_reads = {}

    def comm(self, rank):
        return self._handles[rank]

    # -- running ------------------------------------------------------------------
    def run(self, fns):
        World.current = self
        self.procs = [
            Proc(self, i, fns[i], self.copies[i] if self.copies else None)
            for i in range(self.n)
        ]
        if self.track:
            for p in self.procs:
                p.clock = [0] * self.n
        for p in self.procs:
            p.pending = Op("start", p.pid, (), None)
        for p in self.procs:
            p.thread.start()
        self._dispatch(None)
        self.done_lock.acquire()
        for p in self.procs:
            p.thread.join(5)
        World.current = None
        return self

    def _enabled(self):
        return [
            p.pid
            for p in self.procs
            if not p.done and p.pending is not None
            and (p.pending.enabled is None or p.pending.enabled())
        ]

    def _dispatch(self, me):
        """Pick the next process and hand over. Returns when `me` was picked."""
        if self.aborted:
            self._unwind(me)
            return
        if self.chooser is None and not self.track and self.n_steps < self.horizon:
            if me is not None and not me.done and (
                me.pending.enabled is None or me.pending.enabled()
            ):
                self.n_steps += 1
                return
            for nxt in self.procs:
                if not nxt.done and nxt is not me and (
                    nxt.pending.enabled is None or nxt.pending.enabled()
                ):
                    self.n_steps += 1
                    self.n_switch += 1
                    self._switch(me, nxt)
                    return
        live = [p for p in self.procs if not p.done]
        if not live:
            self.done_lock.release()
            return
        enabled = self._enabled()
        if not enabled:
            self.abort_reason = self.abort_reason or (
                "deadlock",
                {p.pid: (p.pending.label if p.pending else None) for p in live},
            )
            self.aborted = True
            self._unwind(me)
            return
        if self.n_steps >= self.horizon:
            self.abort_reason = ("horizon", self.n_steps)
            self.aborted = True
            self._unwind(me)
            return
        if self.chooser is None:
            if me is not None and not me.done and me.pid in enabled:
                pid = me.pid
            else:
                pid = enabled[0]
        else:
            pid = self.chooser(self, me.pid if me is not None and not me.done else None, enabled)
            if pid is None:  # explorer prunes this execution
                self.abort_reason = ("pruned", None)
                self.aborted = True
                self._unwind(me)
                return
        self._record(pid, enabled)
        self.n_steps += 1
        nxt = self.procs[pid]
        if nxt is me:
            return
        self.n_switch += 1
        self._switch(me, nxt)

    def _switch(self, me, nxt):
        if self.copies is not None:
            if me is not None and me.copy is not None:
                me.copy.capture_new()
            if nxt.copy is not None:
                nxt.copy.activate()
        self.running = nxt
        nxt.lock.release()
        if me is not None and not me.done:
            me.lock.acquire()
            if self.aborted:
                raise Abort()

    def _unwind(self, me):
        """Abort every live process, one at a time, so that threads terminate."""
        if me is not None and not me.done:
            raise Abort()
        self._chain()

    def _chain(self):
        for p in self.procs:
            if not p.done:
                if self.copies is not None and p.copy is not None:
                    p.copy.activate()
                p.lock.release()
                return
        self.done_lock.release()

    def _finished(self, proc):
        if self.aborted:
            self._chain()
        else:
            self._dispatch(proc)

    # -- scheduling points -----------------------------------------------------------
    def me(self):
        return self.running

    def point(self, op):
        p = self.procs[op.pid]
        if self.aborted:
            raise Abort()
        p.pending = op
        p.n_ops += 1
        self._dispatch(p)
        if self.aborted:
            raise Abort()
        p.pending = None
        return op.execute() if op.execute is not None else None

    def _record(self, pid, enabled):
        p = self.procs[pid]
        op = p.pending
        if not self.track:
            return
        s = Step()
        s.pid = pid
        s.label = op.label
        s.accesses = op.accesses
        s.enabled = enabled
        s.pendings = {q: self.procs[q].pending for q in enabled}
        s.races = []
        i = len(self.trace)
        clock = p.clock
        for res, wr in op.accesses:
            lw = self.last_write.get(res)
            if lw is not None:
                j, q, c = lw
                if q != pid and clock[q] < j + 1:
                    s.races.append(j)
            if wr:
                for q, (j, c) in self.last_reads.get(res, {}).items():
                    if q != pid and clock[q] < j + 1:
                        s.races.append(j)
        for res, wr in op.accesses:
            lw = self.last_write.get(res)
            if lw is not None:
                _join(clock, lw[2])
            if wr:
                for q, (j, c) in self.last_reads.get(res, {}).items():
                    _join(clock, c)
        clock[pid] = i + 1
        snap = list(clock)
        for res, wr in op.accesses:
            if wr:
                self.last_write[res] = (i, pid, snap)
                self.last_reads.pop(res, None)
            else:
                self.last_reads.setdefault(res, {})[pid] = (i, snap)
        s.clock = snap
        self.trace.append(s)

    def token(self, pid):
        return list(self.procs[pid].clock) if self.track else None

    def absorb(self, pid, token):
        if self.track and token is not None:
            _join(self.procs[pid].clock, token)

    def problem(self, what):
        if len(self.problems) < 10:
            self.problems.append(what)

    # -- end-of-run checks ---------------------------------------------------------------
    def leftovers(self):
        out = []
        for cs in self.comms.values():
            for (src, dst), msgs in cs.unexpected.items():
                for m in msgs:
                    out.append(f"message {src}->{dst} tag={m.tag} never received")
            for dst, posted in cs.posted.items():
                for r in posted:
                    out.append(f"receive on {dst} from {r.source} tag={r.tag} never matched")
        for r in self.requests:
            if not r.waited:
                out.append(f"request {r.desc} never completed by wait/test")
        return out


def _join(a, b):
    for i, v in enumerate(b):
        if v > a[i]:
            a[i] = v


# ---------------------------------------------------------------------------------------
# buffers


def _buf(spec):
    if isinstance(spec, (list, tuple)):
        spec = spec[0]
    return spec


def check_buffer(arr, writable):
    if arr is None:
        return
    if not isinstance(arr, np.ndarray):
        arr = np.asarray(memoryview(arr))
    if not (arr.flags["C_CONTIGUOUS"] or arr.flags["F_CONTIGUOUS"]):
        raise ValueError("ndarray is not contiguous")
    if arr.dtype.byteorder == ">" or arr.dtype.kind not in "biufc?":
        raise KeyError(arr.dtype.str)
    if writable and not arr.flags.writeable:
        raise ValueError("buffer source array is read-only")


def read_raw(arr):
    return arr.tobytes(order="A")


def flat_view(arr):
    """1-d view of the memory of a contiguous array, in memory order."""
    if arr.flags["C_CONTIGUOUS"]:
        return arr.reshape(-1)
    return arr.T.reshape(-1)


def write_raw(arr, payload):
    if len(payload) > arr.nbytes:
        raise MPIError("MPI_ERR_TRUNCATE: message truncated")
    if len(payload) == 0:
        return
    v = flat_view(arr)
    if not np.shares_memory(v, arr):
        raise MPIError("internal: view of receive buffer is a copy")
    src = np.frombuffer(payload, dtype=np.uint8)
    v.view(np.uint8)[: len(payload)] = src


class Message:
    __slots__ = ("src", "dst", "tag", "payload", "array", "snapshot", "request", "token", "obj")


class Request:
    def __init__(self, world, pid, desc):
        self.world = world
        self.pid = pid
        self.desc = desc
        self.complete = False
        self.waited = False
        self.array = None
        self.snapshot = None
        self.token = None
        self.value = None
        self.source = self.tag = None
        self.matched = False
        world.requests.append(self)

    def _done(self):
        return self.complete

    def _finish(self):
        self.waited = True
        if self.array is not None and self.snapshot is not None:
            if read_raw(self.array) != self.snapshot:
                self.world.problem(
                    f"send buffer of {self.desc} was modified before the send completed"
                )
            self.snapshot = None
        self.world.absorb(self.pid, self.token)
        return self.value

    def wait(self, status=None):
        if self.waited:
            return self.value
        w = self.world
        return w.point(Op("wait", self.pid, (), self._finish, self._done, label=f"wait {self.desc}"))

    Wait = wait

    def test(self, status=None):
        if self.waited:
            return (True, self.value)

        def ex():
            if self.complete:
                return (True, self._finish())
            return (False, None)

        return self.world.point(
            Op("test", self.pid, (), ex, label=f"test {self.desc}")
        )

    def Test(self, status=None):
        return self.test()[0]

    def Free(self):
        self.waited = True

    @staticmethod
    def Waitall(requests, statuses=None):
        for r in requests:
            r.wait()

    @staticmethod
    def waitall(requests, statuses=None):
        return [r.wait() for r in requests]


class _CommState:
    def __init__(self, world, cid, group):
        self.world = world
        self.cid = cid
        self.group = group
        self.unexpected = {}
        self.posted = {}
        self.coll_count = [0] * len(group)
        self.colls = {}
        world.comms[cid] = self


class _Coll:
    def __init__(self, kind, root):
        self.kind = kind
        self.root = root
        self.arrived = {}
        self.tokens = {}
        self.left = set()


class Comm:
    """The per-rank handle handed to the code under test."""

    def __init__(self, world, state, rank):
        self._w = world
        self._s = state
        self._rank = rank

    # python-side conveniences
    def __repr__(self):
        return f"Comm(id={self._s.cid}, rank={self._rank}, size={len(self._s.group)})"

    @property
    def _pid(self):
        return self._s.group[self._rank]

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return len(self._s.group)

    rank = property(Get_rank)
    size = property(Get_size)

    def __reduce__(self):
        raise TypeError("communicators cannot be pickled")

    # -- point to point -----------------------------------------------------------------
    def _post_send(self, array, obj, dest, tag, desc, request):
        w, s = self._w, self._s
        m = Message()
        m.src, m.dst, m.tag = self._rank, dest, tag
        m.obj = obj is not None
        m.array = array
        m.request = request
        m.token = w.token(self._pid)
        if obj is not None:
            m.payload = obj
            m.snapshot = None
        else:
            raw = read_raw(array)
            m.snapshot = raw
            m.payload = None if (w.late and w.rendezvous) else raw
            if m.payload is None:
                request.array, request.snapshot = array, raw
            else:
                # a standard-mode nonblocking send may not be touched before completion
                request.array, request.snapshot = array, raw
        if not w.rendezvous:
            request.complete = True
        posted = s.posted.get(dest, [])
        for i, r in enumerate(posted):
            if _matches(r, m):
                del posted[i]
                self._deliver(m, r)
                return
        s.unexpected.setdefault((self._rank, dest), []).append(m)

    def _deliver(self, m, r):
        w = self._w
        payload = m.payload
        if payload is None:
            payload = read_raw(m.array)
            if payload != m.snapshot:
                w.problem(
                    f"send buffer of {m.request.desc} was modified before it was delivered"
                )
        if m.obj:
            if r.array is not None:
                raise MPIError("object message received into a buffer")
            r.value = pickle.loads(payload) if r.pid == w.running.pid else _Lazy(payload)
        else:
            if r.array is None:
                raise MPIError("buffer message received as an object")
            try:
                write_raw(r.array, payload)
            except MPIError as err:
                r.error = err
        r.token = m.token
        r.complete = True
        r.source, r.tag = m.src, m.tag
        m.request.complete = True
        m.request.token = w.token(self._s.group[m.dst]) if w.rendezvous else None

    def _check_peer(self, peer, what):
        if not (0 <= int(peer) < len(self._s.group)):
            raise MPIError(f"MPI_ERR_RANK: invalid {what} rank {peer}")
        return int(peer)

    def Isend(self, buf, dest, tag=0):
        dest = self._check_peer(dest, "destination")
        array = _buf(buf)
        check_buffer(array, False)
        req = Request(self._w, self._pid, f"Isend {self._rank}->{dest} tag={tag}")

        def ex():
            self._post_send(array, None, dest, tag, req.desc, req)

        self._w.point(
            Op("isend", self._pid, (), ex, label=req.desc)
        )
        return req

    def Issend(self, buf, dest, tag=0):
        req = self.Isend(buf, dest, tag)
        return req

    def Send(self, buf, dest, tag=0):
        self.Isend(buf, dest, tag).wait()

    Ssend = Bsend = Rsend = Send
    Ibsend = Irsend = Isend

    def _post_recv(self, array, source, tag):
        w, s = self._w, self._s
        source = ANY if source is None else int(source)
        if source != ANY:
            self._check_peer(source, "source")
        req = Request(w, self._pid, f"recv {source}->{self._rank} tag={tag}")
        req.array = array
        req.snapshot = None
        req.source, req.tag = source, tag
        req.error = None
        # match an already arrived message (earliest per source; lowest source for ANY)
        for src in [source] if source != ANY else range(len(s.group)):
            q = s.unexpected.get((src, self._rank), [])
            for i, m in enumerate(q):
                if tag in (ANY, m.tag) and m.obj == (array is None):
                    del q[i]
                    self._deliver(m, req)
                    return req
        s.posted.setdefault(self._rank, []).append(req)
        return req

    def Irecv(self, buf, source=ANY, tag=ANY):
        array = _buf(buf)
        check_buffer(array, True)
        req_box = []

        def ex():
            req_box.append(self._post_recv(array, source, tag))

        self._w.point(Op("irecv", self._pid, (), ex, label=f"Irecv {source}->{self._rank} tag={tag}"))
        return _RecvHandle(req_box[0])

    def Recv(self, buf, source=ANY, tag=ANY, status=None):
        array = _buf(buf)
        check_buffer(array, True)
        if self._w.aborted:
            raise Abort()
        req = self._post_recv(array, source, tag)
        _RecvHandle(req).wait()

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY, recvtag=ANY, status=None):
        r = self.Irecv(recvbuf, source, recvtag)
        s = self.Isend(sendbuf, dest, sendtag)
        r.wait()
        s.wait()

    def isend(self, obj, dest, tag=0):
        dest = self._check_peer(dest, "destination")
        data = pickle.dumps(obj)
        req = Request(self._w, self._pid, f"isend {self._rank}->{dest} tag={tag}")

        def ex():
            self._post_send(None, data, dest, tag, req.desc, req)

        self._w.point(Op("isend", self._pid, (), ex, label=req.desc))
        return req

    def send(self, obj, dest, tag=0):
        self.isend(obj, dest, tag).wait()

    ssend = send

    def irecv(self, buf=None, source=ANY, tag=ANY):
        box = []

        def ex():
            box.append(self._post_recv(None, source, tag))

        self._w.point(Op("irecv", self._pid, (), ex, label=f"irecv {source}->{self._rank} tag={tag}"))
        return _RecvHandle(box[0])

    def recv(self, buf=None, source=ANY, tag=ANY, status=None):
        req = self._post_recv(None, source, tag)
        return _RecvHandle(req).wait()

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY, recvtag=ANY, status=None):
        r = self.irecv(None, source, recvtag)
        s = self.isend(sendobj, dest, sendtag)
        out = r.wait()
        s.wait()
        return out

    # -- collectives ----------------------------------------------------------------------
    def _collective(self, kind, root, contribute, finish, need, label):
        """`contribute` is stored when the call is made; `finish(coll)` runs when the
        ranks in `need(coll)` have arrived."""
        w, s = self._w, self._s
        me = self._rank
        idx = s.coll_count[me]
        s.coll_count[me] += 1
        size = len(s.group)

        def arrive():
            c = s.colls.get(idx)
            if c is None:
                c = s.colls[idx] = _Coll(kind, root)
            elif (c.kind, c.root) != (kind, root):
                w.problem(
                    f"mismatched collectives on communicator {s.cid}: rank {me} calls "
                    f"{kind}(root={root}) while others call {c.kind}(root={c.root})"
                )
                w.abort_reason = ("mismatched collective", w.problems[-1])
                w.aborted = True
                raise Abort()
            c.arrived[me] = contribute
            c.tokens[me] = w.token(self._pid)

        w.point(Op("coll", self._pid, (), arrive, label=f"{label} enter"))
        c = s.colls[idx]
        who = range(size) if (w.sync_coll or need == "all") else need

        def ready():
            return all(r in c.arrived for r in who)

        def leave():
            for r in who:
                w.absorb(self._pid, c.tokens[r])
            out = finish(c)
            c.left.add(me)
            if len(c.left) == size:
                del s.colls[idx]
            return out

        if len(who) == 1 and who[0] == me:
            return leave()
        return w.point(Op("coll", self._pid, (), leave, ready, label=f"{label} leave"))

    def bcast(self, obj=None, root=0):
        self._check_peer(root, "root")
        data = pickle.dumps(obj) if self._rank == root else None
        return self._collective(
            "bcast", root, data, lambda c: pickle.loads(c.arrived[root]), [root], "bcast"
        )

    def Bcast(self, buf, root=0):
        self._check_peer(root, "root")
        array = _buf(buf)
        check_buffer(array, self._rank != root)
        raw = read_raw(array) if self._rank == root else None

        def finish(c):
            if self._rank != root:
                write_raw(array, c.arrived[root])

        self._collective("Bcast", root, raw, finish, [root], "Bcast")

    def Scatter(self, sendbuf, recvbuf, root=0):
        self._check_peer(root, "root")
        send, recv = _buf(sendbuf), _buf(recvbuf)
        size = len(self._s.group)
        raw = None
        if self._rank == root:
            check_buffer(send, False)
            if send.nbytes % size or send.size % size:
                raise ValueError("message: cannot infer count, number of entries not divisible")
            raw = read_raw(send)
        check_buffer(recv, True)

        def finish(c):
            if recv is None:
                return
            data = c.arrived[root]
            n = len(data) // size
            chunk = data[self._rank * n : (self._rank + 1) * n]
            if n < recv.nbytes:
                self._w.problem(f"Scatter: rank {self._rank} expected {recv.nbytes} bytes, got {n}")
            write_raw(recv, chunk)

        self._collective("Scatter", root, raw, finish, [root], "Scatter")

    def Gather(self, sendbuf, recvbuf, root=0):
        self._check_peer(root, "root")
        send, recv = _buf(sendbuf), _buf(recvbuf)
        size = len(self._s.group)
        check_buffer(send, False)
        raw = read_raw(send)
        if self._rank == root:
            check_buffer(recv, True)
            if recv.size % size:
                raise ValueError("message: cannot infer count, number of entries not divisible")

        def finish(c):
            if self._rank != root:
                return
            n = recv.nbytes // size
            flat = flat_view(recv).view(np.uint8)
            for r in range(size):
                data = c.arrived[r]
                if len(data) > n:
                    raise MPIError("MPI_ERR_TRUNCATE: message truncated")
                if len(data) < n:
                    self._w.problem(f"Gather: root expected {n} bytes from {r}, got {len(data)}")
                flat[r * n : r * n + len(data)] = np.frombuffer(data, np.uint8)

        need = list(range(size)) if self._rank == root else [self._rank]
        self._collective("Gather", root, raw, finish, need, "Gather")

    def Allgather(self, sendbuf, recvbuf):
        send, recv = _buf(sendbuf), _buf(recvbuf)
        check_buffer(send, False)
        check_buffer(recv, True)
        raw = read_raw(send)
        size = len(self._s.group)

        def finish(c):
            flat = flat_view(recv).view(np.uint8)
            n = recv.nbytes // size
            for r in range(size):
                data = c.arrived[r]
                if len(data) > n:
                    raise MPIError("MPI_ERR_TRUNCATE: message truncated")
                flat[r * n : r * n + len(data)] = np.frombuffer(data, np.uint8)

        self._collective("Allgather", None, raw, finish, "all", "Allgather")

    def scatter(self, sendobj=None, root=0):
        data = [pickle.dumps(o) for o in sendobj] if self._rank == root else None
        return self._collective(
            "scatter", root, data, lambda c: pickle.loads(c.arrived[root][self._rank]), [root], "scatter"
        )

    def gather(self, sendobj, root=0):
        size = len(self._s.group)
        need = list(range(size)) if self._rank == root else [self._rank]
        data = pickle.dumps(sendobj)

        def finish(c):
            if self._rank == root:
                return [pickle.loads(c.arrived[r]) for r in range(size)]

        return self._collective("gather", root, data, finish, need, "gather")

    def allgather(self, sendobj):
        size = len(self._s.group)
        data = pickle.dumps(sendobj)
        return self._collective(
            "allgather", None, data,
            lambda c: [pickle.loads(c.arrived[r]) for r in range(size)], "all", "allgather",
        )

    def allreduce(self, sendobj, op=None):
        values = self.allgather(sendobj)
        out = values[0]
        for v in values[1:]:
            out = op(out, v) if callable(op) else out + v
        return out

    def barrier(self):
        self._collective("barrier", None, None, lambda c: None, "all", "barrier")

    Barrier = barrier

    def Split(self, color=0, key=0):
        s = self._s

        def finish(c):
            if not hasattr(c, "new"):
                c.new = {}
                colors = sorted({col for col, _ in c.arrived.values() if col is not None})
                for col in colors:
                    members = sorted(
                        (k, r) for r, (cc, k) in c.arrived.items() if cc == col
                    )
                    st = _CommState(self._w, self._w.next_comm_id, [s.group[r] for _, r in members])
                    self._w.next_comm_id += 1
                    c.new[col] = (st, {r: i for i, (_, r) in enumerate(members)})
            if color is None or color < 0:
                return None
            st, ranks = c.new[color]
            return Comm(self._w, st, ranks[self._rank])

        return self._collective("Split", None, (color, key), finish, "all", "Split")

    def Dup(self):
        return self.Split(0, self._rank)

    Clone = Dup

    def Free(self):
        pass

    def Get_group(self):
        return list(self._s.group)

    def Abort(self, code=1):
        raise MPIError("MPI_Abort called")


class _RecvHandle:
    def __init__(self, req):
        self._req = req

    def wait(self, status=None):
        r = self._req
        if not r.waited:
            w = r.world

            def fin():
                r.waited = True
                w.absorb(r.pid, r.token)

            w.point(Op("recv", r.pid, (), fin, lambda: r.complete, label=r.desc))
            if getattr(r, "error", None):
                raise r.error
            if isinstance(r.value, _Lazy):
                r.value = pickle.loads(r.value.data)
        return r.value

    Wait = wait

    def test(self, status=None):
        r = self._req
        if r.complete and not r.waited:
            return (True, self.wait())
        r.world.point(Op("test", r.pid, (), None, label="test " + r.desc))
        return (r.complete, self.wait() if r.complete else None)

    def Test(self, status=None):
        return self.test()[0]

    def Free(self):
        self._req.waited = True


class _Lazy:
    def __init__(self, data):
        self.data = data


def _matches(r, m):
    return (
        (r.source == ANY or r.source == m.src)
        and (r.tag == ANY or r.tag == m.tag)
        and m.obj == (r.array is None)
    )
