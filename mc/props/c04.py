"""C04: overlapping asynchronous exchanges, every schedule explored."""
import itertools

import numpy as np

from mc import cube, load
from mc.core import Violation
from mc.exchange import Update
from mc.explore import Explorer, POLICIES, run_world, verdict, policy

ID = "C04"
LEVEL = "model_checking"
RULE = (
    "a case is one program (ordered start/wait/collective actions per rank over 1-3 updates), one MPI "
    "semantics (send mode x collective mode) and one exploration (base policies, or all schedules within "
    "the deviation bound); all are distinct; states are nodes of the explored schedule trees"
)
ASSUMPTIONS = [
    "MPI semantics as modelled by mc/world.py (eager and rendezvous standard sends, loose and synchronising collectives, payload read at match time)",
    "all ranks issue the same sequence of start calls and collectives; every request is waited on once",
    "the compute domain is overwritten between the start of an update and the wait (unless another update uses the variable)",
    "overlapping updates use distinct variables, except scalar updates of different width on one variable",
]
KINDS3 = ("S", "D", "I")


def patterns(k):
    """All orders of s0<s1<.. and w_i after s_i."""
    out = []

    def go(seq, started, waited):
        if len(seq) == 2 * k:
            out.append(tuple(seq))
            return
        if started < k:
            go(seq + [("s", started)], started + 1, waited)
        for i in range(started):
            if i not in waited:
                go(seq + [("w", i)], started, waited | {i})

    go([], 0, frozenset())
    return out


COLLS = ("tilegather", "cubescatter", "cubegather", "tilescatter", "barrier")


def jobs(tier, seed):
    out = []

    def add(**kw):
        out.append(kw)

    deep = tier == "thorough"
    # base policies: all 2-update programs over 5 kinds, all 3-update programs over 3 kinds
    two = list(itertools.product("SNCDI", repeat=2)) + [("S", "s"), ("t", "S"), ("I", "t")]
    for kinds in two:
        add(what="base", kinds=kinds, n_sub=1, weight=20)
    for kinds in itertools.product(KINDS3, repeat=3):
        add(what="base", kinds=kinds, n_sub=1, weight=60)
    for kinds in itertools.product("SDI", repeat=2):
        add(what="base", kinds=kinds, n_sub=2, weight=80)
    # with collectives in every gap
    for coll in COLLS:
        for kinds in (("S",), ("D",), ("I",), ("S", "D"), ("D", "I"), ("I", "S")):
            add(what="coll", coll=coll, kinds=kinds, n_sub=1, weight=30)
        add(what="coll", coll=coll, kinds=("C",), n_sub=2, weight=60)
    # many updates under way at once
    for k in (4, 20, 40, 80, 260) + ((9, 160, 600, 1100) if deep else ()):
        add(what="many", kinds=("many",), k=k, n_sub=1, weight=20 * k)
    # different wait order on every rank (buffered sends)
    for kinds in itertools.product("SDI", repeat=2):
        add(what="orders", kinds=kinds, n_sub=1, weight=60)
    # deviation-bounded schedule exploration
    for kinds in (("S",), ("t",), ("C",), ("D",), ("I",), ("S", "S"), ("S", "s"), ("S", "I"), ("I", "D")):
        for mode in ("rendezvous", "eager"):
            for pol in ("stay", "rr"):
                if len(kinds) == 2 and not deep and (pol == "rr") != (mode == "eager"):
                    continue
                add(what="dev", kinds=kinds, mode=mode, pol=pol, n_sub=1, weight=100 * len(kinds) ** 2)
    for mode in ("rendezvous", "eager"):
        add(what="devcoll", kinds=("S",), coll="tilegather", mode=mode, pol="stay", n_sub=1, weight=200)
    if deep:
        for kinds in itertools.product("SDI", repeat=2):
            for mode in ("rendezvous", "eager"):
                add(what="dev", kinds=kinds, mode=mode, pol="rrdesc", n_sub=1, weight=400)
        for kinds in (("S",), ("I",)):
            for mode in ("rendezvous", "eager"):
                for part in range(8):
                    add(what="dev2", kinds=kinds, mode=mode, pol="stay", n_sub=1, part=part, weight=900)
        for kinds in itertools.product(KINDS3, repeat=3):
            add(what="orders3", kinds=kinds, n_sub=1, weight=300)
    return out


def make_updates(lay, kinds, seed):
    ups, base = [], 0
    dts = ("f8", "f4", "f8")
    if len(kinds) > 3:  # small variables of one kind of message
        for k in kinds:
            ups.append(Update(lay, k, 1, order=("Y", "X"), mem="C", base=base, salt=seed))
            base = ups[-1].top
        return ups
    for i, k in enumerate(kinds):
        if k == "s":
            u = Update(lay, "S", 1, like=ups[0])
        elif k == "t":  # width one, two-dimensional: rows of the variable are contiguous
            u = Update(lay, "S", 1, order=("Y", "X"), mem="C", base=base, salt=seed)
            base = u.top
        else:
            # same dtype and width for all but the last: messages could be confused
            n = 2 if k in "SC" and lay.nx > 1 else 1
            u = Update(lay, k, n, order=[("z", "Y", "X"), ("Y", "X", "z"), ("Y", "X")][i if k != kinds[0] else 0],
                       dtype=dts[i] if k != kinds[0] else "f8", mem=("C", "mixed", "F")[i], base=base, salt=seed)
            base = u.top
        ups.append(u)
    return ups


def scenario(lay, kinds, progs, copies, seed):
    """progs[r]: action list of rank r. Returns build() for Explorer."""
    ups = make_updates(lay, kinds, seed)
    # model: every rank's variables change only through its own waits; what is sent are the
    # values at start, which no other update modifies
    arrays = [u.fresh() if u.home is u else None for u in ups]
    for i, u in enumerate(ups):
        if arrays[i] is None:
            arrays[i] = arrays[ups.index(u.home)]
    snaps = [u.snapshot(arrays[i]) for i, u in enumerate(ups)]
    # a variable of one update only is overwritten right after the update is started
    alone = [sum(1 for v in ups if v.home is u.home) == 1 for u in ups]
    for i, u in enumerate(ups):
        if alone[i]:
            for k in range(u.ncomp):
                for r in range(lay.total):
                    scribble(arrays[i][k][r], u, k, r)
        u.apply(snaps[i], arrays[i])

    def build():
        got = [[[None] * lay.total for _ in range(u.ncomp)] for u in ups]

        def rank_fn(r):
            def run(comm):
                util = copies[r].util
                part = util.CubedSpherePartitioner(util.TilePartitioner((lay.n_sub, lay.n_sub)))
                c = util.CubedSphereCommunicator(comm, part)
                qs, reqs = [], [None] * len(ups)
                for u in ups:
                    qs.append(u.quantities(util, r) if u.home is u else qs[ups.index(u.home)])
                left = [sum(1 for v in ups if v.home is u.home) for u in ups]
                for a in progs[r]:
                    if a[0] == "s":
                        i = a[1]
                        reqs[i] = ups[i].start(c, qs[i])
                        if alone[i]:
                            for k in range(ups[i].ncomp):
                                scribble(qs[i][k].data, ups[i], k, r)
                    elif a[0] == "w":
                        i = a[1]
                        reqs[i].wait()
                        home = ups.index(ups[i].home)
                        left[home] -= 1
                        if left[home] == 0:
                            for k in range(ups[i].ncomp):
                                got[home][k][r] = qs[i][k].data.copy()
                                qs[i][k].data[...] = -77  # free to be reused from now on
                    else:
                        collective(util, c, comm, a[1], r, lay)
                return None
            return run

        def check(w):
            for i, u in enumerate(ups):
                if u.home is u:
                    bad = u.compare(got[i], arrays[i], f"update {i} of {''.join(kinds)}:")
                    if bad:
                        raise Violation(bad)
            return "ok"

        return [rank_fn(r) for r in range(lay.total)], check

    return build


def scribble(data, update, comp, rank):
    """New values in the compute domain, as a computation overlapping the exchange writes them.

    Points the update itself delivers (the shared edge of a synchronisation) are left alone: they may
    arrive at any time between start and wait."""
    spec = update.specs[comp][rank]
    inner = tuple(slice(o, o + e) for o, e in zip(spec.origin, spec.extent))
    new = np.array(data)
    new[inner] = -3 - new[inner]
    update.keep_received(new, data, comp, rank)
    data[...] = new


def collective(util, c, comm, kind, r, lay):
    nx = lay.nx
    if kind == "barrier":
        comm.barrier()
    elif kind == "tilegather":
        q = util.Quantity(np.full((nx, nx), float(r)), ["y", "x"], "m")
        out = c.tile.gather(q)
        per = lay.n_sub ** 2
        if r % per == 0:
            tile_blocks(out.view[:], lay, r)
        elif out is not None:
            raise Violation("non-root rank received a gathered quantity")
    elif kind == "cubegather":
        q = util.Quantity(np.full((nx, nx), float(r)), ["y", "x"], "m")
        out = c.gather(q)
        if r == 0:
            for t in range(6):
                tile_blocks(out.view[t], lay, t * lay.n_sub ** 2)
    elif kind in ("cubescatter", "tilescatter"):
        n = nx * lay.n_sub
        if kind == "cubescatter":
            data = np.arange(6 * n * n, dtype=float).reshape(6, n, n)
            out = c.scatter(util.Quantity(data, ["tile", "y", "x"], "m") if r == 0 else None)
        else:
            data = np.arange(6 * n * n, dtype=float).reshape(6, n, n)
            t = lay.pos(r)[0]
            root = c.tile.rank == 0
            out = c.tile.scatter(util.Quantity(data[t].copy(), ["y", "x"], "m") if root else None)
        f, j, i = lay.pos(r)
        want = data[f, j * nx : (j + 1) * nx, i * nx : (i + 1) * nx]
        if not np.array_equal(out.view[:], want):
            raise Violation(f"{kind} between exchanges delivered wrong data on rank {r}")


def tile_blocks(arr, lay, root):
    nx = lay.nx
    for k in range(lay.n_sub ** 2):
        j, i = divmod(k, lay.n_sub)
        if not (arr[j * nx : (j + 1) * nx, i * nx : (i + 1) * nx] == root + k).all():
            raise Violation("gather between exchanges delivered wrong data")


def run_base(rec, key, lay, kinds, progs, copies, seed, mode, coll, pol):
    def go():
        ex = Explorer(lay.total, scenario(lay, kinds, progs, copies, seed), copies, mode=mode, coll=coll)
        try:
            ex.deviations(base=pol, bound=0)
        finally:
            account(rec, ex)
    rec.case(key, go)


def account(rec, ex):
    rec.executions += ex.executions
    rec.transitions += ex.transitions
    rec.states += ex.states
    rec.traces += ex.executions
    for o in ex.outcomes:
        rec.note_outcome(o)
    if ex.capped:
        rec.cap("execution cap reached in a schedule exploration")


def run_job(job, rec):
    n_sub = job["n_sub"]
    lay = cube.Layout(n_sub, 3 if n_sub == 1 else 2)
    copies = load.copies(lay.total)
    kinds = list(job["kinds"])
    k, seed = len(kinds), job["seed"]
    what = job["what"]
    combos = list(itertools.product(("rendezvous", "eager"), ("loose", "sync")))
    if what == "base":
        for pi, pat in enumerate(patterns(k)):
            progs = [list(pat)] * lay.total
            for mode in ("rendezvous", "eager"):
                pols = POLICIES if k < 3 and n_sub == 1 else POLICIES[pi % 4 :][:1] + (("rr",) if n_sub == 2 else ())
                for pol in pols:
                    key = {"k": "".join(kinds), "pat": pat, "mode": mode, "pol": pol, "n_sub": n_sub}
                    run_base(rec, key, lay, kinds, progs, copies, seed, mode, "loose", pol)
        rec.sample({"program": patterns(k)[-1], "kinds": kinds, "ranks": lay.total})
    elif what in ("coll", "devcoll"):
        for pi, pat in enumerate(patterns(k)):
            for gap in range(len(pat) + 1):
                prog = list(pat[:gap]) + [("c", job["coll"])] + list(pat[gap:])
                if what == "devcoll":
                    if gap != 1:
                        continue
                    deviate(rec, job, lay, kinds, prog, copies, seed, "sync" if job["mode"] == "rendezvous" else "loose", 1)
                    continue
                for mode, coll in combos:
                    pol = POLICIES[(gap + pi) % 4]
                    key = {"k": "".join(kinds), "prog": prog, "mode": mode, "coll": coll, "pol": pol, "n_sub": n_sub}
                    run_base(rec, key, lay, kinds, [prog] * lay.total, copies, seed, mode, coll, pol)
    elif what == "many":
        many(rec, job, lay, copies, seed)
    elif what == "orders":
        for bits in range(64):
            progs = []
            for r in range(6):
                first = (bits >> r) & 1
                progs.append([("s", 0), ("s", 1), ("w", first), ("w", 1 - first)])
            pol = POLICIES[bits % 4]
            key = {"k": "".join(kinds), "orders": bits, "pol": pol}
            run_base(rec, key, lay, kinds, progs, copies, seed, "eager", "loose", pol)
    elif what == "orders3":
        perms = list(itertools.permutations(range(3)))
        for a, b in itertools.product(perms, perms):
            for r0 in range(6):
                if a == b and r0:
                    continue
                progs = [[("s", 0), ("s", 1), ("s", 2)] + [("w", i) for i in (a if r == r0 else b)] for r in range(6)]
                key = {"k": "".join(kinds), "a": a, "b": b, "r0": r0}
                run_base(rec, key, lay, kinds, progs, copies, seed, "eager", "loose", POLICIES[r0 % 4])
    elif what == "dev":
        prog = [("s", i) for i in range(k)] + [("w", i) for i in reversed(range(k))]
        deviate(rec, job, lay, kinds, prog, copies, seed, "loose", 1)
    elif what == "dev2":
        prog = [("s", 0), ("w", 0)]
        deviate(rec, job, lay, kinds, prog, copies, seed, "loose", 2)


def many(rec, job, lay, copies, seed):
    """job["k"] updates started before the first wait, then a window of that many kept under way."""
    k = job["k"]
    total = k + min(k, 40)
    for pat in ("S", "DS", "SIS"):
        kinds = [pat[i % len(pat)] for i in range(total)]
        starts = [("s", i) for i in range(k)]
        last = [("w", i) for i in reversed(range(k))]
        for shape in ("reversed", "strided", "window"):
            if shape == "reversed":
                n, prog = k, starts + last
            elif shape == "strided":
                n, prog = k, starts + [("w", i) for o in range(3) for i in range(o, k, 3)]
            else:  # the first stays open while later ones come and go
                n, prog = total, starts + [a for i in range(k, total) for a in (("w", i - k + 1), ("s", i))]
                prog += [("w", i) for i in [0] + list(reversed(range(total - k + 1, total)))]
            for mode, pol in (("eager", "rr"), ("rendezvous", "stay")):
                if k > 20 and (pat, shape, mode) not in BIG[: 4 if k < 200 or job["tier"] == "thorough" else 1]:
                    continue
                key = {"k": k, "kinds": pat, "shape": shape, "mode": mode, "pol": pol}

                def go():
                    ex = Explorer(lay.total, scenario(lay, kinds[:n], [prog] * lay.total, copies, seed), copies, mode=mode, coll="loose")
                    try:
                        ex.deviations(base=pol, bound=0)
                    finally:
                        account(rec, ex)

                rec.case(key, go)


BIG = [("S", "reversed", "eager"), ("SIS", "window", "rendezvous"), ("DS", "strided", "eager"), ("SIS", "reversed", "rendezvous")]


def deviate(rec, job, lay, kinds, prog, copies, seed, coll, bound):
    key = {"k": "".join(kinds), "prog": prog, "mode": job["mode"], "pol": job["pol"], "bound": bound, "part": job.get("part")}

    def go():
        ex = Explorer(lay.total, scenario(lay, kinds, [prog] * lay.total, copies, seed), copies,
                      mode=job["mode"], coll=coll, cap=6000 if bound == 1 else 25000)
        part = job.get("part")
        try:
            if part is None:
                ex.deviations(base=job["pol"], bound=bound)
            else:
                # split the first-level deviations over several jobs by step index
                ex.deviations(base=job["pol"], bound=bound, shard=(part, 8))
        finally:
            account(rec, ex)
        rec.sample({"program": prog, "kinds": kinds, "mode": job["mode"], "schedules": ex.executions,
                    "longest": ex.max_trace})

    rec.case(key, go)
