"""C21: rejected exchange calls leave quantities and communicators usable."""
import itertools

import numpy as np

from mc import cube, load
from mc.core import Violation
from mc.exchange import Update
from mc.explore import Explorer, POLICIES
from mc.fields import KINDS, Spec, first_diff, same
from mc.props.c04 import account

ID = "C21"
LEVEL = "model_checking"
RULE = (
    "a case is one sequence of up to 3 calls, at least one of which must be rejected, followed by one valid exchange of each kind, "
    "one MPI semantics and one exploration (a base policy or all schedules within the deviation bound); after each rejected "
    "call every quantity of the rank is compared bit for bit, at the end every storage point with the model of the valid calls alone; "
    "states are nodes of the explored schedule trees"
)
ASSUMPTIONS = [
    "MPI semantics as modelled by mc/world.py; messages of a rejected update may stay undelivered, but never reach another update",
    "arguments are invalid on every rank, and all ranks make the same sequence of calls",
    "halo widths of accepted calls do not exceed the subtile",
]
VALID = "SDI"
SHORT = ("W", "E", "S", "N")


def rejected_calls():
    """name -> f(c, env) making the invalid call; env has the rank's quantities."""
    out = {}
    out["zero"] = lambda c, e: c.start_halo_update(e["S"][0], 0)
    out["wide"] = lambda c, e: c.start_halo_update(e["S"][0], 3)
    out["huge"] = lambda c, e: c.halo_update(e["S"][0], 40)
    for s in SHORT:
        out["short" + s] = lambda c, e, s=s: c.start_halo_update(e["short" + s], 2)
    out["vzero"] = lambda c, e: c.start_vector_halo_update(*e["D"], 0)
    out["vwide"] = lambda c, e: c.vector_halo_update(*e["D"], 3)
    out["vshorty"] = lambda c, e: c.start_vector_halo_update(e["vx"], e["vyshort"], 2)
    out["vshortx"] = lambda c, e: c.start_vector_halo_update(e["vxshort"], e["vy"], 2)
    out["scenter"] = lambda c, e: c.start_synchronize_vector_interfaces(e["S"][0], e["S"][0])
    out["sswapped"] = lambda c, e: c.synchronize_vector_interfaces(*e["I"][::-1])
    out["shalf"] = lambda c, e: c.start_synchronize_vector_interfaces(e["I"][0], e["vx"])
    out["shalfx"] = lambda c, e: c.synchronize_vector_interfaces(e["vy"], e["I"][1])
    out["shalfA"] = lambda c, e: c.synchronize_vector_interfaces(e["I"][0], e["va"])
    out["sAhalf"] = lambda c, e: c.start_synchronize_vector_interfaces(e["va"], e["I"][1])
    out["shalfB"] = lambda c, e: c.start_synchronize_vector_interfaces(e["I"][0], e["vb"])
    out["sBhalf"] = lambda c, e: c.synchronize_vector_interfaces(e["vb"], e["I"][1])
    return out


REJ = tuple(rejected_calls())
FEW = ("wide", "shortE", "vzero", "vshorty", "sswapped", "shalf")


def sequences(k, alphabet=REJ):
    for seq in itertools.product(tuple(VALID) + tuple(alphabet), repeat=k):
        if any(len(a) > 1 for a in seq):
            yield seq


def jobs(tier, seed):
    deep = tier == "thorough"
    out = []
    for part in range(8):
        out.append(dict(what="seq", n_sub=1, lengths=(1, 2), part=part, parts=8, weight=100, full=deep))
        out.append(dict(what="seq", n_sub=1, lengths=(3,), part=part, parts=8, weight=100, full=False, few=not deep))
        out.append(dict(what="seq", n_sub=2, lengths=(1, 2), part=part, parts=8, weight=200, full=deep))
        out.append(dict(what="async", n_sub=1, part=part, parts=8, weight=60, full=deep))
    for mode in ("eager", "rendezvous"):
        for rej, kinds in (("wide", "S"), ("shortE", "S"), ("vshorty", "D"), ("shalf", "I")) if not deep else [(x, VALID) for x in REJ]:
            for kind in kinds:
                out.append(dict(what="dev", rej=rej, kind=kind, mode=mode, n_sub=1, weight=300))
    for layout in ((1, 2), (2, 1), (2, 3) if deep else (1, 3)):
        out.append(dict(what="layout", layout=layout, weight=50, part=0, parts=1))
    return out


def extra_spec(lay, dims, lo, hi):
    nx = lay.nx
    sizes = {"x": nx, "y": nx, "x_interface": nx + 1, "y_interface": nx + 1, "z": 2}
    return Spec(dims, sizes, lo, hi, "f8", "C")


def scenario(lay, seq, copies, seed, style):
    """style: 'plain' valid calls wait at once, 'async' valid calls are waited on at the end."""
    ups, base = {}, 0
    for i, k in enumerate(VALID):
        ups[k] = Update(lay, k, 2 if k == "S" else min(2, lay.nx - 1) if k == "D" else 1, dtype="f8", mem=("C", "mixed", "F")[i], base=base,
                        order=(("Y", "X"), ("z", "Y", "X"), ("Y", "X", "z"))[i], salt=seed)
        base = ups[k].top
    two = {"x": 2, "y": 2, "x_interface": 2, "y_interface": 2}
    extras = {}
    for s in SHORT:
        lo, hi = dict(two), dict(two)
        (lo if s in "WS" else hi)["x" if s in "WE" else "y"] = 1
        extras["short" + s] = extra_spec(lay, ("y", "x"), lo, hi)
    extras["vx"] = extra_spec(lay, ("y_interface", "x"), two, two)
    extras["vy"] = extra_spec(lay, ("y", "x_interface"), two, two)
    extras["va"] = extra_spec(lay, ("y", "x"), two, two)
    extras["vb"] = extra_spec(lay, ("y_interface", "x_interface"), two, two)
    extras["vxshort"] = extra_spec(lay, ("y_interface", "x"), two, {**two, "x": 1})
    extras["vyshort"] = extra_spec(lay, ("y", "x_interface"), two, {**two, "y": 1})
    model = {k: u.fresh() for k, u in ups.items()}
    order = [a for a in seq if a in VALID] + list(VALID) if style == "plain" else [a for a in seq if a in VALID]
    for k in order:
        ups[k].apply(ups[k].snapshot(model[k]), model[k])
    calls = rejected_calls()

    def build():
        got = {k: [[None] * lay.total for _ in range(u.ncomp)] for k, u in ups.items()}

        def rank_fn(r):
            def run(comm):
                util = copies[r].util
                part = util.CubedSpherePartitioner(util.TilePartitioner((lay.n_sub, lay.n_sub)))
                c = util.CubedSphereCommunicator(comm, part)
                env = {k: u.quantities(util, r) for k, u in ups.items()}
                at = base + r * 1000
                for name, s in extras.items():
                    env[name] = s.quantity(util, s.values(at, salt=seed))
                    at += s.size + 1000 * lay.total
                pending = []
                for a in seq:
                    if a in VALID:
                        if style == "plain":
                            ups[a].run(c, env[a])
                        else:
                            pending.append(ups[a].start(c, env[a]))
                        continue
                    before = contents(env)
                    try:
                        req = calls[a](c, env)
                    except Exception as e:  # noqa: B902
                        out = type(e)
                    else:
                        raise Violation(f"invalid call {a} was accepted and returned {req!r}")
                    if out.__name__ in ("MPIError", "Violation"):
                        raise Violation(f"invalid call {a} made an erroneous MPI call")
                    unchanged(env, before, f"rejected call {a} on rank {r}")
                for q in pending:
                    q.wait()
                if style == "plain":
                    for k in VALID:
                        ups[k].run(c, env[k])
                for k, u in ups.items():
                    for i in range(u.ncomp):
                        got[k][i][r] = env[k][i].data.copy()
                at = base + r * 1000
                for name, s in extras.items():
                    if not same(env[name].data, s.values(at, salt=seed)):
                        raise Violation(f"quantity {name}, used in rejected calls only, changed on rank {r}")
                    at += s.size + 1000 * lay.total
            return run

        def check(w):
            for k, u in ups.items():
                bad = u.compare(got[k], model[k], f"after {','.join(seq)}:")
                if bad:
                    raise Violation(bad)
            return "ok"

        return [rank_fn(r) for r in range(lay.total)], check

    return build


def contents(env):
    out = {}
    for k, v in env.items():
        for i, q in enumerate(v if isinstance(v, list) else [v]):
            out[k, i] = (q.data.copy(), q.dims, q.origin, q.extent, q.units, q.data)
    return out


def unchanged(env, before, what):
    for k, v in env.items():
        for i, q in enumerate(v if isinstance(v, list) else [v]):
            old = before[k, i]
            if q.data is not old[5] or not same(q.data, old[0]):
                raise Violation(f"{what} changed quantity {k}: " + first_diff(q.data, old[0]))
            if (q.dims, q.origin, q.extent, q.units) != old[1:5]:
                raise Violation(f"{what} changed the metadata of {k}")


def explore(rec, key, lay, build, copies, mode, pol, bound=0, cap=None):
    def go():
        ex = Explorer(lay.total, build, copies, mode=mode, coll="loose", allow_leftovers=True, cap=cap)
        try:
            ex.deviations(base=pol, bound=bound)
        finally:
            account(rec, ex)
    rec.case(key, go)


def run_job(job, rec):
    what, seed = job["what"], job["seed"]
    if what == "layout":
        return run_layout(job, rec)
    lay = cube.Layout(job["n_sub"], 3 if job["n_sub"] == 1 else 2)
    copies = load.copies(lay.total)
    modes = ("eager", "rendezvous")
    if what == "seq":
        todo = [s for k in job["lengths"] for s in sequences(k, FEW if job.get("few") else REJ)]
        for i, seq in enumerate(todo):
            if i % job["parts"] != job["part"]:
                continue
            build = scenario(lay, seq, copies, seed, "plain")
            j = i // job["parts"]
            picks = itertools.product(modes, POLICIES) if job["full"] else [(modes[j % 2], POLICIES[j // 2 % 4])]
            for mode, pol in picks:
                explore(rec, {"seq": seq, "n_sub": lay.n_sub, "mode": mode, "pol": pol}, lay, build, copies, mode, pol)
        rec.sample({"program": todo[-1], "ranks": lay.total})
    elif what == "async":
        # valid updates started before, between and after rejected calls, waited on at the end
        todo = []
        for k in range(1, 4):
            for kinds in itertools.permutations(VALID, k):
                for gap in range(k + 1):
                    for rej in itertools.product(REJ, repeat=1) if k == 3 else itertools.chain(
                            itertools.product(REJ, repeat=1), itertools.product(REJ[::3], repeat=2)):
                        todo.append(kinds[:gap] + rej + kinds[gap:])
        for i, seq in enumerate(todo):
            if i % job["parts"] != job["part"]:
                continue
            build = scenario(lay, seq, copies, seed, "async")
            j = i // job["parts"]
            picks = itertools.product(modes, POLICIES) if job["full"] else [(modes[j % 2], POLICIES[j // 2 % 4])]
            for mode, pol in picks:
                explore(rec, {"async": seq, "mode": mode, "pol": pol}, lay, build, copies, mode, pol)
    elif what == "dev":
        seq = (job["rej"], job["kind"])
        explore(rec, {"dev": seq, "mode": job["mode"]}, lay, scenario(lay, seq, copies, seed, "async"), copies,
                job["mode"], "stay", bound=1, cap=6000)
        rec.sample({"program": seq, "mode": job["mode"], "executions": rec.executions})


def run_layout(job, rec):
    """Layouts for which halo exchanges are not supported: every attempt is rejected, and tile and
    cube collectives go on working."""
    ly, lx = job["layout"]
    total = 6 * ly * lx
    copies = load.copies(total)
    calls = ("S", "D", "I", "bounds", "gather", "scatter", "tilegather")
    ny, nx = 2, 3

    def build_for(seq):
        def build():
            def rank_fn(r):
                def run(comm):
                    util = copies[r].util
                    c = util.CubedSphereCommunicator(comm, util.CubedSpherePartitioner(util.TilePartitioner((ly, lx))))
                    mk = lambda dims, shape, k: util.Quantity(  # noqa: E731
                        np.arange(float(np.prod(shape))).reshape(shape) + 1000 * r + 100000 * k, dims, "m",
                        origin=(2, 2), extent=tuple(s - 4 for s in shape))
                    env = {"q": mk(["y", "x"], (ny + 4, nx + 4), 0), "u": mk(["y_interface", "x"], (ny + 5, nx + 4), 1),
                           "v": mk(["y", "x_interface"], (ny + 4, nx + 5), 2)}
                    for a in seq + ("gather",):
                        before = contents(env)
                        if a in ("S", "D", "I", "bounds"):
                            try:
                                if a == "S":
                                    c.halo_update(env["q"], 2)
                                elif a == "D":
                                    c.vector_halo_update(env["u"], env["v"], 2)
                                elif a == "I":
                                    c.synchronize_vector_interfaces(env["u"], env["v"])
                                else:
                                    c.boundaries
                            except Exception as e:  # noqa: B902
                                if type(e).__name__ in ("MPIError", "Violation"):
                                    raise
                            else:
                                raise Violation(f"call {a} on an unsupported layout was accepted after {seq}")
                        else:
                            collective(util, c, a, r, env["q"])
                        unchanged(env, before, f"call {a} of {seq} on rank {r}")
                return run

            def collective(util, c, a, r, q):
                per = ly * lx
                if a == "scatter":
                    g = np.arange(6.0 * ly * ny * lx * nx).reshape(6, ly * ny, lx * nx)
                    out = c.scatter(util.Quantity(g, ["tile", "y", "x"], "m") if r == 0 else None)
                    t, (j, i) = r // per, divmod(r % per, lx)
                    if not np.array_equal(out.view[:], g[t, j * ny:(j + 1) * ny, i * nx:(i + 1) * nx]):
                        raise Violation(f"scatter delivered wrong data on rank {r}")
                    return
                out = c.gather(q) if a == "gather" else c.tile.gather(q)
                root = 0 if a == "gather" else r - r % per
                if r != root:
                    return
                whole = np.arange(float((ny + 4) * (nx + 4))).reshape(ny + 4, nx + 4)[2:-2, 2:-2]
                got = out.view[:] if a == "gather" else out.view[:][None]
                for k in range(len(got) * per):
                    t, (j, i) = k // per, divmod(k % per, lx)
                    if not np.array_equal(got[t, j * ny:(j + 1) * ny, i * nx:(i + 1) * nx], whole + 1000 * (root + k)):
                        raise Violation(f"{a} after rejected calls delivered wrong data")

            return [rank_fn(r) for r in range(total)], lambda w: "ok"
        return build

    lay = type("L", (), {"total": total})
    i = 0
    for k in (1, 2, 3):
        for seq in itertools.product(calls, repeat=k):
            if not set(seq) & {"S", "D", "I", "bounds"}:
                continue
            i += 1
            mode, pol = ("eager", "rendezvous")[i % 2], POLICIES[i // 2 % 4]
            explore(rec, {"layout": (ly, lx), "seq": seq, "mode": mode, "pol": pol}, lay, build_for(seq), copies, mode, pol)
    rec.sample({"layout": [ly, lx], "programs": i})
