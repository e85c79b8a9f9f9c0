"""Conformance of the MPI models with real MPI: python3 tools/validate_mpi.py [N...]

Runs the same programs (a) on real mpi4py communicators under mpirun, (b) on the simulated communicator of
mc/world.py in every send/collective mode and base schedule, and, for the programs of C20, (c) on the model C20
compares the mock communicator with. Prints every difference; exits 1 when there is one."""
import hashlib, itertools, os, pickle, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import numpy as np  # noqa
from mc import load  # noqa
from mc.props import c20  # noqa

util = load.util()


def err(f):
    """MPI failures and refused arguments only need to fail, in the same call."""
    try:
        return ("ok", f())
    except Exception as e:
        return ("refused" if isinstance(e, (ValueError, TypeError, KeyError, BufferError)) else "mpi error",)


# -- primitive semantics (3 ranks) ---------------------------------------------------------
def fifo(c):
    r = c.Get_rank()
    if r == 0:
        for i in range(4):
            c.Send(np.full(2, i), dest=1, tag=5)
    elif r == 1:
        out = []
        for i in range(4):
            b = np.zeros(2, int)
            c.Recv(b, source=0, tag=5)
            out.append(b.tolist())
        return out


def tags_out_of_order(c):
    r = c.Get_rank()
    if r == 0:
        reqs = [c.Isend(np.full(2, i), dest=1, tag=i) for i in range(4)]
        [q.wait() for q in reqs]
    elif r == 1:
        out = []
        for i in (2, 0, 3, 1):
            b = np.zeros(2, int)
            c.Recv(b, source=0, tag=i)
            out.append(b.tolist())
        return out


def irecv_posting_order(c):
    r = c.Get_rank()
    if r == 1:
        bufs = [np.zeros(1, int) for _ in range(3)]
        reqs = [c.Irecv(b, source=0, tag=1) for b in bufs]
        c.bcast(None, root=1)
        for q in reversed(reqs):
            q.wait()
        return [b.tolist() for b in bufs]
    c.bcast(None, root=1)
    if r == 0:
        for i in range(3):
            c.Send(np.array([i]), dest=1, tag=1)


def sources(c):
    r, n = c.Get_rank(), c.Get_size()
    reqs = [c.Isend(np.array([10 * r + d]), dest=d, tag=3) for d in range(n) if d != r]
    out = []
    for s in reversed(range(n)):
        if s != r:
            b = np.zeros(1, int)
            c.Recv(b, source=s, tag=3)
            out.append(b.tolist())
    [q.wait() for q in reqs]
    return out


def fortran(c):
    a = np.arange(6.0).reshape(2, 3)
    out = []
    for so, ro in itertools.product("CF", "CF"):
        if c.Get_rank() == 0:
            c.Send(np.array(a, order=so), dest=2)
        elif c.Get_rank() == 2:
            b = np.zeros((2, 3), order=ro)
            c.Recv(b, source=0)
            out.append(b.tolist())
    return out


def refusals(c):
    bad = np.zeros((4, 4))[1:3, 1:3]
    n = c.Get_size()
    ro = np.zeros(2)
    ro.flags.writeable = False
    out = []
    for b in (bad, bad[::-1], np.zeros(2, ">f8"), np.zeros(2, "U3"), np.zeros(2, "M8[s]"), np.zeros(2, object)):
        out.append(err(lambda: c.Isend(b, dest=c.Get_rank()))[0])
        out.append(err(lambda: c.Recv(b, source=0))[0] if b is not ro else None)
    out.append(err(lambda: c.Recv(ro, source=0))[0])
    out.append(err(lambda: c.Scatter(np.zeros(n + 1) if c.Get_rank() == 0 else None, bad, root=0))[0] if c.Get_rank() else None)
    out.append(err(lambda: c.Send(np.zeros(1), dest=n))[0])
    return out


def dtypes(c):
    out = []
    for d in ("f8", "f4", "i8", "i4", "i2", "i1", "u1", "?", "c16", "c8", "u4"):
        v = (np.arange(4) + c.Get_rank()).astype(d)
        b = np.zeros(4, d)
        q = c.Isend(v, dest=(c.Get_rank() + 1) % 3, tag=9)
        c.Recv(b, source=(c.Get_rank() - 1) % 3, tag=9)
        q.wait()
        out.append(b.tolist())
    return out


def truncation(c):
    r = c.Get_rank()
    if r == 0:
        c.Send(np.arange(4.0), dest=1)
        c.Send(np.arange(2.0), dest=1)
        c.Send(np.zeros(0), dest=1)
        c.Send(np.array(7.0), dest=1)
    elif r == 1:
        b = np.full(2, -1.0)
        out = [err(lambda: c.Recv(b, source=0))[0]]
        b = np.full(4, -1.0)
        c.Recv(b, source=0)
        out.append(b.tolist())
        c.Recv(b, source=0)
        out.append(b.tolist())
        b = np.zeros(())
        c.Recv(b, source=0)
        out.append(b.tolist())
        return out


def reinterpretation(c):
    """Only bytes travel."""
    r = c.Get_rank()
    if r == 0:
        c.Send(np.arange(4, dtype="i4"), dest=1)
    elif r == 1:
        b = np.zeros(2, "i8")
        c.Recv(b, source=0)
        return b.tolist()


def bcasts(c):
    out = []
    for root in range(c.Get_size()):
        obj = {"root": root, "x": [1, 2]}
        given = obj if c.Get_rank() == root else "ignored"
        got = c.bcast(given, root=root)
        out.append((dict(got), got is given))
        got["x"].append(3)
    return out


def scatter_gather(c):
    r, n = c.Get_rank(), c.Get_size()
    out = []
    for root in range(n):
        for order in "CF":
            a = np.array(np.arange(6.0 * n).reshape(n, 2, 3), order=order)
            b = np.zeros((2, 3), order=order)
            c.Scatter(a if r == root else None, b, root=root)
            out.append(b.tolist())
            g = np.zeros((n, 2, 3), order=order) if r == root else None
            c.Gather(b + r, g, root=root)
            out.append(None if g is None else g.tolist())
    return out


def splits(c):
    r, n = c.Get_rank(), c.Get_size()
    out = []
    for color, key in ((0, r), (0, -r), (r % 2, r), (r % 2, -r), (r, 0), (5 - r % 2, 0)):
        s = c.Split(color=color, key=key)
        got = s.bcast(("from", r))
        out.append((s.Get_rank(), s.Get_size(), got))
    return out


def separate_communicators(c):
    """Messages of one communicator are not received on another."""
    r = c.Get_rank()
    s = c.Split(color=0, key=r)
    if r == 0:
        a, b = c.Isend(np.array([1]), dest=1, tag=2), s.Isend(np.array([2]), dest=1, tag=2)
        a.wait(), b.wait()
    elif r == 1:
        x, y = np.zeros(1, int), np.zeros(1, int)
        s.Recv(x, source=0, tag=2)
        c.Recv(y, source=0, tag=2)
        return x.tolist(), y.tolist()


def interleaved(c):
    """Point-to-point messages do not interfere with collectives."""
    r, n = c.Get_rank(), c.Get_size()
    q = c.Isend(np.array([r]), dest=(r + 1) % n, tag=0)
    got = c.bcast(r * 10)
    s = np.zeros(1)
    c.Scatter(np.arange(float(n)) if r == 0 else None, s)
    b = np.zeros(1, int)
    c.Recv(b, source=(r - 1) % n, tag=0)
    q.wait()
    return got, s.tolist(), b.tolist()


PRIMITIVE = [fifo, tags_out_of_order, irecv_posting_order, sources, fortran, refusals, dtypes, truncation, reinterpretation,
             bcasts, scatter_gather, splits, separate_communicators, interleaved]


# -- programs of C20 -------------------------------------------------------------------------
def c20_programs(n):
    out = []
    for d in (1, 2):
        for p in itertools.product([s for s in c20.STEPS if s != "refused"], repeat=d):
            calls = [[] for _ in range(n)]
            for k, s in enumerate(p):
                for r, cs in enumerate(c20.STEPS[s](n, 3 * k)):
                    calls[r] += cs
            out.append((p, calls))
    return out


def plain(x):
    return pickle.dumps(x)


def c20_run(calls):
    def f(c):
        out, subs, pending = [], {}, []
        sent = []

        def do(comm, call):
            kind, rank, n = call[0], comm.Get_rank(), comm.Get_size()
            if kind == "split":
                subs[call[2]] = comm.Split(color=call[1], key=rank)
            elif kind == "sub":
                do(subs[call[1]], call[2:])
            elif kind == "sizes":
                out.append((subs[call[1]].Get_rank(), subs[call[1]].Get_size()))
            elif kind == "send":
                comm.Send(c20.content("p2p", call[2], rank), dest=call[1])
            elif kind == "isend":
                v = c20.content("p2p", call[2], rank)
                sent.append((comm.Isend(v, dest=call[1]), v))
            elif kind == "recv":
                b = np.zeros_like(c20.content("p2p", call[2], 0))
                comm.Recv(b, source=call[1])
                out.append(b.tolist())
            elif kind == "irecv":
                b = np.zeros_like(c20.content("p2p", call[2], 0))
                pending.append((comm.Irecv(b, source=call[1]), b))
            elif kind == "wait":
                q, b = pending.pop(0)
                q.wait()
                out.append(b.tolist())
            elif kind == "bcast":
                obj = c20.OBJECTS[call[1] % len(c20.OBJECTS)]
                out.append(repr(comm.bcast(obj if rank == 0 else ("ignored", rank))))
            elif kind == "scatter":
                v = np.stack([c20.content("scatter", call[1], d) for d in range(n)]) if rank == 0 else None
                b = np.zeros_like(c20.content("scatter", call[1], 0))
                comm.Scatter(v, b, root=0)
                out.append(b.tolist())
            elif kind == "gather":
                v = c20.content("gather", call[1], rank)
                root = min(call[2], n - 1)
                b = np.zeros((n,) + v.shape, v.dtype) if rank == root else None
                comm.Gather(v, b, root=root)
                out.append(None if b is None else b.tolist())

        for call in calls[c.Get_rank()]:
            do(c, call)
        for q, v in sent:
            q.wait()
        return out
    return f


def c20_model(calls):
    """What C20's model of MPI delivers."""
    n = len(calls)
    models = {None: c20.Model(n)}
    place = {}
    out = [[] for _ in range(n)]
    pending = [[] for _ in range(n)]
    pc = [0] * n

    def do(r, m, rank, call, key):
        kind = call[0]
        if kind == "split":
            g = models.setdefault((call[2], call[1]), c20.Model(0))
            place[r, call[2]] = (g, g.n)
            g.n += 1
        elif kind == "sub":
            g, i = place[r, call[1]]
            if sum((q, call[1]) in place for q in range(n)) < n:
                raise c20.Would()
            do(r, g, i, call[2:], key)
        elif kind == "sizes":
            g, i = place[r, call[1]]
            if sum((q, call[1]) in place for q in range(n)) < n:
                raise c20.Would()
            out[r].append((i, g.n))
        elif kind in ("send", "isend"):
            m.send(rank, call[1], c20.content("p2p", call[2], rank))
        elif kind == "recv":
            out[r].append(m.recv(call[1], rank).tolist())
        elif kind == "irecv":
            pending[r].append((m, call[1], rank))
        elif kind == "wait":
            mm, s, d = pending[r][0]
            out[r].append(mm.recv(s, d).tolist())
            pending[r].pop(0)
        elif kind == "bcast":
            out[r].append(repr(m.rooted("bcast", m.bcasts, rank, c20.OBJECTS[call[1] % len(c20.OBJECTS)])))
        elif kind == "scatter":
            m.rooted("scatter", m.scatters, rank, True)
            out[r].append(c20.content("scatter", call[1], rank).tolist())
        elif kind == "gather":
            got = m.gather(rank, min(call[2], m.n - 1), c20.content("gather", call[1], rank))
            out[r].append(None if got is None else np.stack(got).tolist())

    while any(pc[r] < len(calls[r]) for r in range(n)):
        moved = False
        for r in range(n):
            while pc[r] < len(calls[r]):
                # splits in ascending order of rank, as C20 assumes
                call = calls[r][pc[r]]
                if call[0] == "split" and any((q, call[2]) not in place for q in range(r)):
                    break
                try:
                    do(r, models[None], r, call, None)
                except c20.Would:
                    break
                pc[r] += 1
                moved = True
        if not moved:
            return "stuck"
    return out


# -- the library itself ------------------------------------------------------------------------
def digest(qs):
    h = hashlib.sha256()
    for q in qs:
        if q is None:
            h.update(b"none")
            continue
        h.update(repr((q.dims, q.origin, q.extent, q.units, str(q.data.dtype))).encode())
        h.update(np.ascontiguousarray(q.data).tobytes())
    return h.hexdigest()


def quantities(u, rank, dims, dtype, order, n_halo=2):
    size = {"x": 4, "y": 4, "x_interface": 5, "y_interface": 5, "z": 2}
    ext = tuple(size[d] for d in dims)
    o = tuple(0 if d == "z" else n_halo for d in dims)
    shape = tuple(e + 2 * k for e, k in zip(ext, o))
    v = (np.arange(np.prod(shape)).reshape(shape) + 1000 * rank + 1).astype(dtype)
    return u.Quantity(np.array(v, order=order), dims, "m", origin=o, extent=ext)


def library(layout, u=util):
    def f(c):
        r = c.Get_rank()
        p = u.CubedSpherePartitioner(u.TilePartitioner(layout))
        cs = u.CubedSphereCommunicator(c, p)
        out = []
        for dims in (("y", "x"), ("x", "z", "y"), ("z", "y_interface", "x_interface")):
            for order in "CF":
                for n in (1, 2):
                    q = quantities(u, r, dims, "f8", order)
                    cs.halo_update(q, n)
                    out.append(digest([q]))
        for dx, dy in ((("y", "x"), ("y", "x")), (("y", "x_interface", "z"), ("y_interface", "x", "z")), (("y_interface", "x"), ("y", "x_interface"))):
            a, b = quantities(u, r, dx, "f4", "F"), quantities(u, r, dy, "f4", "C")
            cs.vector_halo_update(a, b, 2)
            out.append(digest([a, b]))
        a, b = quantities(u, r, ("z", "y_interface", "x"), "f8", "C"), quantities(u, r, ("z", "y", "x_interface"), "f8", "C")
        cs.synchronize_vector_interfaces(a, b)
        out.append(digest([a, b]))
        # overlapping updates waited on out of order, with a collective in between
        qs = [quantities(u, r, ("y", "x"), d, "C") for d in ("f8", "i4", "f4")]
        reqs = [cs.start_halo_update(q, 2) for q in qs]
        vec = [quantities(u, r, ("x", "y"), "f8", "F") for _ in "ab"]
        reqs.append(cs.start_vector_halo_update(vec[0], vec[1], 1))
        c.bcast(None)
        for q in (reqs[2], reqs[0], reqs[3], reqs[1]):
            q.wait()
        out.append(digest(qs + vec))
        # scatter and gather over tile and cube
        for comm in (cs.tile, cs):
            st = {"b": quantities(u, r, ("z", "y", "x_interface"), "f4", "F"), "a": quantities(u, r, ("y", "x"), "f8", "C")}
            g = comm.gather_state(dict(st))
            out.append(None if not g else digest(g[k] for k in sorted(g)))
            s = comm.scatter_state(g)
            out.append(digest(s[k] for k in sorted(s)))
        return out
    return f


def main_real(path, n):
    from mpi4py import MPI

    c = MPI.COMM_WORLD
    res = {}
    for name, f in programs(n):
        cc = c.Split(0, c.Get_rank())
        v = f(cc)
        res[name] = c.gather(v)
        c.Barrier()
    if c.Get_rank() == 0:
        with open(path, "wb") as fh:
            pickle.dump(res, fh)


def programs(n):
    if n == 3:
        for f in PRIMITIVE:
            yield f.__name__, f
    if n <= 3:
        for p, calls in c20_programs(n):
            yield ("c20",) + p, c20_run(calls)
    else:
        k = {6: 1, 24: 2}[n]
        yield ("library", k), library((k, k))


def main():
    from mc.explore import POLICIES, policy, run_world, verdict

    bad = 0
    for n in [int(a) for a in sys.argv[1:]] or (2, 3, 6, 24):
        d = tempfile.mkdtemp(prefix="mpi", dir="/tmp")
        try:
            env = dict(os.environ, PMIX_MCA_gds="hash", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
            subprocess.run(
                ["timeout", "600", "mpirun", "-n", str(n), "--allow-run-as-root", "--oversubscribe", "--mca", "btl", "self,vader", "--mca",
                 "btl_vader_single_copy_mechanism", "none", sys.executable, os.path.abspath(__file__), "--real", d + "/out", str(n)], env=env, check=True)
            with open(d + "/out", "rb") as fh:
                real = pickle.load(fh)
        finally:
            shutil.rmtree(d)
        models = dict((("c20",) + p, c20_model(calls)) for p, calls in c20_programs(n)) if n <= 3 else {}
        copies = load.copies(n) if n > 3 else None
        count = 0
        for name, f in programs(n):
            for mode, coll, pol in itertools.product(("eager", "rendezvous"), ("loose", "sync"), POLICIES):
                if mode == "rendezvous" and isinstance(name, tuple) and name[0] == "c20":
                    continue  # C20's programs assume buffered sends
                if n == 24 and pol not in ("stay", "rr"):
                    continue
                fns = [f] * n if copies is None else [library(tuple(int(k) for k in name[1:] * 2), cp.util) for cp in copies]
                w = run_world(n, fns, copies, mode=mode, coll=coll, chooser=policy(pol))
                got = [p.result for p in w.procs]
                v = verdict(w, allow_leftovers=True)
                count += 1
                if name == "refusals" or name == "truncation" or v is None:
                    v = None
                if v is not None or got != real[name]:
                    bad += 1
                    print("DIFFERENT", n, name, mode, coll, pol, v, "\n   sim ", got, "\n   real", real[name])
                    break
            if name in models and models[name] != real[name]:
                bad += 1
                print("DIFFERENT from C20's model", n, name, "\n   model", models[name], "\n   real ", real[name])
        print(f"{n} ranks: {len(real)} programs on real MPI, {count} simulated executions, {len(models)} programs of C20's model")
    sys.exit(bool(bad))


if __name__ == "__main__":
    if "--real" in sys.argv:
        main_real(sys.argv[2], int(sys.argv[3]))
    else:
        main()
