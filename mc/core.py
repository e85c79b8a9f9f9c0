"""Case enumeration, reporting, evidence and known findings.

A property module (mc/props/cNN.py) defines

    ID, LEVEL, RULE, ASSUMPTIONS
    def jobs(tier, seed) -> list of JSON-able dicts (one job = one shard of the space)
    def run_job(job, rec)      explores the shard exhaustively, reporting to `rec`
    optional prepare(tier)     run once in the parent before forking workers

Every case of a job is executed on the real code imported from the repository's working
tree; `rec` counts what was executed and collects violations.
"""
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
import multiprocessing

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.jsonl")

JOB_LIMIT_S = int(os.environ.get("VERIF_JOB_LIMIT", "300"))  # without any progress
BUDGET_S = int(os.environ.get("VERIF_BUDGET", "840"))  # exploration is cut (and reported as capped) after this


class JobTimeout(BaseException):
    pass


class Violation(Exception):
    """Raised by oracles; carries a stable signature used for known findings."""

    def __init__(self, what, sig=None, **detail):
        super().__init__(what)
        self.what = what
        self.sig = sig
        self.detail = detail


class Boom(Exception):
    pass


ENDINGS = (Boom, KeyboardInterrupt, ValueError, SystemExit, StopIteration, BaseException)


def leave_raising(ctx, i):
    """Ends a with-block by an exception (the i-th kind): None, or what the block did to it."""
    kind = ENDINGS[i % len(ENDINGS)]
    boom = kind("ended")
    try:
        if ctx.__exit__(kind, boom, None):
            return f"swallowed a {kind.__name__}"
    except BaseException as err:  # noqa: B902
        if isinstance(err, JobTimeout):
            raise
        if err is not boom:
            return f"replaced a {kind.__name__} by {err!r}"
    return None


def jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist()) if x.size <= 200 else f"<ndarray {x.shape} {x.dtype}>"
    if isinstance(x, np.generic):
        return x.item() if not isinstance(x, np.void) else str(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Recorder:
    MAX_VIOLATIONS = 3

    def __init__(self, job):
        self.job = job
        self.evaluations = 0
        self.states = 0
        self.transitions = 0
        self.executions = 0
        self.traces = 0
        self.distinct = set()
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.known = {}
        self.counters = {}
        self.capped = []
        self.only = None  # replay filter: case key

    # -- counting -----------------------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def note_distinct(self, key):
        self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def note_outcome(self, key):
        self.outcomes.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(jsonable(x))

    def cap(self, what):
        self.capped.append(what)

    # -- cases --------------------------------------------------------------------
    def full(self):
        return len(self.violations) >= self.MAX_VIOLATIONS

    def case(self, key, fn, nontrivial=True):
        """Run one case. Any exception escaping `fn` is a violation of the property
        in a scenario the property declares valid."""
        if self.full():
            return
        if self.only is not None and jsonable(key) != self.only:
            return
        self.evaluations += 1
        if nontrivial:
            self.note_distinct(key)
        progress()
        try:
            fn()
        except JobTimeout:
            self.add_violation(key, "no progress: the code under test did not return", None, {})
            raise
        except Violation as v:
            self.add_violation(key, v.what, v.sig, v.detail)
        except Exception as err:
            self.add_violation(
                key,
                f"unexpected {type(err).__name__}: {err}",
                None,
                {"traceback": traceback.format_exc()[-3000:]},
            )

    def is_known(self, sig):
        """Is `sig` a listed finding? Notes it if so."""
        for finding in load_known(self.job.get("property")):
            if finding.get("signature") == sig:
                self.known[sig] = finding["what"]
                return True
        return False

    def add_violation(self, key, what, sig, detail):
        if sig is not None and self.is_known(sig):
            return
        self.violations.append(
            {"case": jsonable(key), "what": what, "signature": sig, "detail": jsonable(detail)}
        )

    def result(self):
        return {
            k: getattr(self, k)
            for k in (
                "evaluations states transitions executions traces distinct outcomes "
                "samples violations known counters capped"
            ).split()
        }


_known_cache = None


def load_known(prop=None):
    global _known_cache
    if _known_cache is None:
        _known_cache = []
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                for line in f:
                    line = line.strip()
                    if line and not line.startswith("#") and not line.startswith("fixed:"):
                        _known_cache.append(json.loads(line))
    return [k for k in _known_cache if prop is None or k["property"] == prop]


def _alarm(signum, frame):
    raise JobTimeout()


_in_job = False


def progress():
    """A case or an execution of the code under test has ended: the job is not stuck."""
    if _in_job:
        signal.alarm(JOB_LIMIT_S)


def _run_one(args):
    module, job, only = args
    rec = Recorder(job)
    rec.only = only
    global _in_job
    signal.signal(signal.SIGALRM, _alarm)
    _in_job = True
    signal.alarm(JOB_LIMIT_S)
    try:
        module.run_job(job, rec)
    except JobTimeout:
        if not rec.violations:
            rec.add_violation(
                {"job": job}, "no progress: the code under test did not return", None, {}
            )
    except Violation as v:
        rec.add_violation({"job": job}, v.what, v.sig, v.detail)
    except Exception as err:
        rec.add_violation(
            {"job": job},
            f"unexpected {type(err).__name__}: {err}",
            None,
            {"traceback": traceback.format_exc()[-3000:]},
        )
    finally:
        _in_job = False
        signal.alarm(0)
    out = rec.result()
    out["job"] = job
    return out


_MODULE = None


def _worker(args):
    job, only = args
    return _run_one((_MODULE, job, only))


def run_check(module, tier, seed):
    global _MODULE
    _MODULE = module
    t0 = time.time()
    if hasattr(module, "prepare"):
        module.prepare(tier)
    jobs = list(module.jobs(tier, seed))
    for j in jobs:
        j["property"] = module.ID
        j["seed"] = seed
        j["tier"] = tier
    order = list(range(len(jobs)))
    random.Random(seed).shuffle(order)
    order.sort(key=lambda i: -jobs[i].get("weight", 1))
    n_workers = min(8, len(jobs), int(os.environ.get("VERIF_WORKERS", "8")))
    results = []
    if n_workers <= 1:
        for i in order:
            results.append(_worker((jobs[i], None)))
    else:
        mp = multiprocessing.get_context("fork")
        with mp.Pool(n_workers) as pool:
            done = pool.imap_unordered(_worker, [(jobs[i], None) for i in order], 1)
            while len(results) < len(jobs):
                try:
                    r = done.next(max(1.0, BUDGET_S - (time.time() - t0)))
                except multiprocessing.TimeoutError:
                    pool.terminate()
                    if not results:
                        raise
                    results[-1]["capped"].append(
                        f"time budget of {BUDGET_S} s: {len(jobs) - len(results)} of {len(jobs)} jobs not finished"
                    )
                    break
                results.append(r)
                if sum(len(x["violations"]) for x in results) >= (1 if os.environ.get("VERIF_FAILFAST") else 5):
                    pool.terminate()
                    break
    results.sort(key=lambda r: json.dumps(r["job"], sort_keys=True, default=str))
    return finish(module, tier, seed, jobs, results, time.time() - t0)


def finish(module, tier, seed, jobs, results, wall):
    agg = {k: sum(r[k] for r in results) for k in ("evaluations", "states", "transitions", "executions", "traces")}
    distinct = set().union(*[r["distinct"] for r in results]) if results else set()
    outcomes = set().union(*[r["outcomes"] for r in results]) if results else set()
    counters, capped, known, samples = {}, [], {}, []
    for r in results:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        capped += r["capped"]
        known.update(r["known"])
        if len(samples) < 3:
            samples += r["samples"][:1]
    violations = [(r["job"], v) for r in results for v in r["violations"]]
    coverage = {
        "samples": samples or [{"job": jobs[0]}] if jobs else [],
        "rule": module.RULE,
        "evaluations": agg["evaluations"],
        "distinct_nontrivial": len(distinct),
        "distinct_outcomes": len(outcomes),
        "jobs": len(jobs),
        "executions": agg["executions"],
        "exhaustive": not capped and not violations,
        "counters": counters,
    }
    if capped:
        coverage["capped"] = sorted(set(capped))
    if module.LEVEL == "model_checking":
        coverage["states"] = agg["states"]
        coverage["transitions"] = agg["transitions"]
        coverage["traces_validated_against_impl"] = agg["traces"]
        del coverage["executions"]
    for k in ("executions", "counters", "distinct_outcomes"):
        if k in coverage and not coverage[k]:
            del coverage[k]
    evidence = {
        "property": module.ID,
        "tier": tier,
        "seed": seed,
        "level": module.LEVEL,
        "coverage": coverage,
        "assumptions": list(module.ASSUMPTIONS),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, module.ID + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(jsonable(evidence), f, indent=1)
    os.replace(path + ".tmp", path)

    for sig, what in sorted(known.items()):
        print(f"KNOWN-FINDING: property={module.ID} {what}")
    print(
        f"{module.ID} tier={tier} jobs={len(jobs)} cases={agg['evaluations']} "
        f"distinct={len(distinct)} executions={agg['executions']} states={agg['states']} "
        f"transitions={agg['transitions']} outcomes={len(outcomes)} wall={wall:.1f}s"
        + (f" CAPPED={sorted(set(capped))}" if capped else "")
    )
    if not violations:
        return 0
    os.makedirs(REPLAYS, exist_ok=True)
    for job, v in violations[:5]:
        body = {"property": module.ID, "job": jsonable(job), **v}
        digest = hashlib.sha1(json.dumps(body["case"], sort_keys=True).encode()).hexdigest()[:10]
        rp = os.path.join(REPLAYS, f"{module.ID}-{digest}.json")
        with open(rp, "w") as f:
            json.dump(body, f, indent=1)
        print(f"VIOLATION property={module.ID} replay={rp}")
        print(f"  case: {json.dumps(v['case'])[:600]}")
        print(f"  what: {v['what'][:1200]}")
        tb = v["detail"].get("traceback") if isinstance(v["detail"], dict) else None
        if tb:
            print("  " + tb.replace("\n", "\n  "))
    return 1


def replay(module, path):
    with open(path) as f:
        body = json.load(f)
    if hasattr(module, "prepare"):
        module.prepare(body["job"].get("tier", "quick"))
    only = body["case"]
    if isinstance(only, dict) and set(only) == {"job"}:
        only = None
    out = _run_one((module, body["job"], only))
    for v in out["violations"]:
        print(f"VIOLATION property={module.ID} replay={path}")
        print(f"  what: {v['what']}")
        print("  detail: " + json.dumps(v["detail"], indent=1)[:4000])
    if not out["violations"]:
        print(f"replay of {path}: property held")
    return 1 if out["violations"] else 0
