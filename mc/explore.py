"""Systematic exploration of the schedules of a World."""
from .core import Violation, progress
from .world import World, ReplayDivergence


def verdict(world, allow_leftovers=False):
    """Schedule-level problems of one finished execution, as a Violation or None."""
    for p in world.procs:
        if p.exc is not None:
            if isinstance(p.exc, Violation):
                return p.exc
            return Violation(
                f"rank {p.pid} raised {type(p.exc).__name__}: {p.exc}",
                traceback=getattr(p, "tb", "")[-2500:],
            )
    if world.abort_reason and world.abort_reason[0] == "deadlock":
        return Violation("deadlock: " + repr(world.abort_reason[1])[:800])
    if world.abort_reason and world.abort_reason[0] == "horizon":
        return Violation(f"no termination within {world.abort_reason[1]} operations")
    if world.problems:
        return Violation("; ".join(world.problems[:3]))
    if world.abort_reason and world.abort_reason[0] != "pruned":
        return Violation(repr(world.abort_reason))
    if not allow_leftovers and not world.aborted:
        left = world.leftovers()
        if left:
            return Violation("; ".join(left[:4]))
    return None


def policy(name):
    def stay(w, me, enabled):
        return me if me in enabled else enabled[0]

    def desc(w, me, enabled):
        return me if me in enabled else enabled[-1]

    def rr(w, me, enabled):
        if me is None:
            return enabled[0]
        for p in enabled:
            if p > me:
                return p
        return enabled[0]

    def rrdesc(w, me, enabled):
        if me is None:
            return enabled[-1]
        for p in reversed(enabled):
            if p < me:
                return p
        return enabled[-1]

    return {"stay": stay, "desc": desc, "rr": rr, "rrdesc": rrdesc}[name]


POLICIES = ("stay", "desc", "rr", "rrdesc")


def run_world(n, fns, copies, **kw):
    for c in copies or ():
        c.reset()
    w = World(n, copies=copies, **kw)
    w.run(fns)
    progress()
    return w


class Explorer:
    """`build()` returns (fns, check) for a fresh execution; check(world) raises Violation."""

    def __init__(self, n, build, copies, rec=None, cap=None, allow_leftovers=False, **kw):
        self.n = n
        self.allow_leftovers = allow_leftovers
        self.build = build
        self.copies = copies
        self.kw = kw
        self.rec = rec
        self.cap = cap
        self.executions = 0
        self.transitions = 0
        self.states = 0
        self.capped = False
        self.max_trace = 0
        self.outcomes = set()

    def execute(self, chooser, track=False):
        fns, check = self.build()
        w = run_world(self.n, fns, self.copies, chooser=chooser, track=track, **self.kw)
        self.executions += 1
        self.transitions += w.n_steps
        self.max_trace = max(self.max_trace, w.n_steps)
        if w.abort_reason and w.abort_reason[0] == "divergence":
            raise ReplayDivergence(w.abort_reason[1])
        v = verdict(w, self.allow_leftovers)
        if v is None and not w.aborted:
            out = check(w)
            if out is not None:
                self.outcomes.add(out)
        if v is not None:
            v.detail["schedule"] = list(getattr(w, "schedule", []))
            raise v
        return w

    # -- deviation-bounded DFS ---------------------------------------------------------
    def deviations(self, base="stay", bound=1, shard=None):
        """All schedules with at most `bound` departures from the base policy; `shard`
        (k, n) keeps those whose first departure is at a step = k mod n."""
        pol = policy(base)
        work = [()]
        while work:
            devs = work.pop()
            devmap = dict(devs)
            seen = []

            def chooser(w, me, enabled):
                i = len(seen)
                d = pol(w, me, enabled)
                if i in devmap:
                    if devmap[i] not in enabled:
                        raise ReplayDivergence(f"step {i}: {devmap[i]} not in {enabled}")
                    d = devmap[i]
                seen.append((d, enabled))
                w.schedule = [s[0] for s in seen]
                return d

            self.execute(chooser)
            start = devs[-1][0] + 1 if devs else 0
            self.states += len(seen) - start + 1
            if self.cap and self.executions >= self.cap:
                if work or len(devs) < bound:
                    self.capped = True
                break
            if len(devs) < bound:
                for i in range(len(seen) - 1, start - 1, -1):
                    chosen, enabled = seen[i]
                    alts = [p for p in enabled if p != chosen]
                    if shard is not None and not devs and i % shard[1] != shard[0]:
                        continue
                    for p in alts:
                        work.append(devs + ((i, p),))
        return self

    # -- dynamic partial-order reduction -------------------------------------------------
    def dpor(self):
        """All schedules up to partial-order equivalence. When the first execution shows races, the fixed
        schedules of POLICIES come next (a lockstep schedule shows most lost updates at once)."""
        stack = []
        first = True
        while True:
            base_len = len(stack)

            def chooser(w, me, enabled):
                i = len(w.trace)
                w.schedule = [n["chosen"] for n in stack[: i + 1]]
                if i < base_len:
                    node = stack[i]
                    if node["enabled"] != enabled:
                        raise ReplayDivergence(f"step {i}: {enabled} vs {node['enabled']}")
                    if node["pend"] is None:
                        node["pend"] = {q: w.procs[q].pending.accesses for q in enabled}
                    return node["chosen"]
                sleep = {}
                if stack:
                    par = stack[-1]
                    acc = par["pend"][par["chosen"]]
                    for q, a in par["sleep"].items():
                        if q != par["chosen"] and not _dependent(a, acc):
                            sleep[q] = a
                cand = [p for p in enabled if p not in sleep]
                if not cand:
                    return None
                p = me if me in cand else cand[0]
                stack.append(
                    {
                        "chosen": p,
                        "enabled": enabled,
                        "pend": {q: w.procs[q].pending.accesses for q in enabled},
                        "sleep": sleep,
                        "back": {p},
                        "done": set(),
                    }
                )
                self.states += 1
                return p

            w = self.execute(chooser, track=True)
            for s in w.trace:
                for j in s.races:
                    node = stack[j]
                    if s.pid in node["enabled"]:
                        node["back"].add(s.pid)
                    else:
                        node["back"].update(node["enabled"])
            while stack:
                node = stack[-1]
                c = node["chosen"]
                node["done"].add(c)
                node["sleep"] = dict(node["sleep"])
                node["sleep"][c] = node["pend"][c]
                todo = sorted(p for p in node["back"] if p not in node["done"] and p not in node["sleep"])
                if todo:
                    node["chosen"] = todo[0]
                    break
                stack.pop()
            if not stack:
                return self
            if first:
                first = False
                for name in ("rr", "rrdesc", "desc"):
                    pol = policy(name)
                    self.execute(lambda w, me, enabled: w.__dict__.setdefault("schedule", []).append(pol(w, me, enabled)) or w.schedule[-1])
            if self.cap and self.executions >= self.cap:
                self.capped = True
                return self


def _dependent(a, b):
    for ra, wa in a:
        for rb, wb in b:
            if ra == rb and (wa or wb):
                return True
    return False
