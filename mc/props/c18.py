"""C18: timers accumulate exactly the time between matching starts and stops."""
import itertools
import sys
import time
import timeit
import warnings

from mc import load
from mc.core import Violation, leave_raising

ID = "C18"
LEVEL = "model_checking"
RULE = (
    "every sequence up to the stated depth of start/stop of two names, entering a timed block, leaving it normally or by "
    "an exception, reset, enable, disable and querying (with the returned tables altered), on a Timer and on a NullTimer "
    "under a virtual clock; after every operation the outcome, and at the end every query, is compared with the model; "
    "names are interchangeable so the first named operation uses the first name; states are nodes of the sequence tree, "
    "every maximal path is executed on the real code"
)
ASSUMPTIONS = [
    "time only passes between operations (virtual clock, replaced under the names timeit.default_timer, time.perf_counter, time.monotonic, time.time and the like)",
    "the error type of rejected operations is not prescribed",
]
OPS = [("start", "a"), ("start", "b"), ("stop", "a"), ("stop", "b"), ("enter", "a"), ("enter", "b"),
       ("leave", None), ("raise", None), ("reset", None), ("enable", None), ("disable", None), ("query", None)]
NOW = [0.0]


def virtual(*a):
    return NOW[0]


def virtual_ns(*a):
    return int(NOW[0] * 512) * 1953125  # times are multiples of 1/512 s


REAL = {time.perf_counter, time.time, time.monotonic, timeit.default_timer, time.process_time}
REAL_NS = {time.perf_counter_ns, time.time_ns, time.monotonic_ns, time.process_time_ns}


def patch():
    import sys

    time.perf_counter = time.time = time.monotonic = timeit.default_timer = time.process_time = virtual
    time.perf_counter_ns = time.time_ns = time.monotonic_ns = time.process_time_ns = virtual_ns
    util = load.util()
    for name, mod in list(sys.modules.items()):
        if name.startswith(load.PKG):
            for attr, val in list(vars(mod).items()):
                try:
                    if val in REAL:
                        setattr(mod, attr, virtual)
                    elif val in REAL_NS:
                        setattr(mod, attr, virtual_ns)
                except TypeError:
                    pass
    return util


def jobs(tier, seed):
    depth = 8 if tier == "thorough" else 6
    out = []
    for cls in ("Timer", "NullTimer"):
        for p in itertools.product(range(len(OPS)), repeat=2):
            if valid(p):
                d = depth if cls == "Timer" else depth - 1
                out.append({"cls": cls, "prefix": list(p), "depth": d, "weight": 10 if cls == "Timer" else 1})
    return out


def valid(seq):
    """Leave/raise only inside blocks; the first named operation uses name a."""
    open_, named = 0, False
    for k in seq:
        op, name = OPS[k]
        if op == "enter":
            open_ += 1
        if op in ("leave", "raise"):
            open_ -= 1
            if open_ < 0:
                return False
        if name and not named:
            if name == "b":
                return False
            named = True
    return True


class Model:
    def __init__(self, null):
        self.null = null
        self.enabled = not null
        self.running, self.total, self.count = {}, {}, {}

    def start(self, name):
        if self.enabled:
            if name in self.running:
                return False
            self.running[name] = NOW[0]
        return True

    def stop(self, name):
        if self.enabled:
            if name not in self.running:
                return False
            self.total[name] = self.total.get(name, 0) + NOW[0] - self.running.pop(name)
            self.count[name] = self.count.get(name, 0) + 1
        return True

    def disable(self):
        if self.running:
            return False
        self.enabled = False
        return True

    def enable(self):
        if self.null:
            return False
        self.enabled = True
        return True

    def reset(self):
        self.total, self.count = {}, {}
        return True


WARNED = [0]


def note_warning(*a, **k):
    WARNED[0] += 1


def query(t, m, seq):
    got = []
    for name in ("times", "hits"):
        WARNED[0] = 0
        got.append(getattr(t, name))
        if bool(WARNED[0]) != bool(m.running):
            raise Violation(f"{show(seq)}: {name} gave {WARNED[0]} warnings with {len(m.running)} clocks running")
    if got != [m.total, m.count] or bool(t.enabled) != m.enabled:
        raise Violation(f"{show(seq)}: times {got[0]} hits {got[1]} enabled {t.enabled}, expected {m.total} {m.count} {m.enabled}")


def execute(cls, seq):
    NOW[0] = 2.0 ** 30
    t = cls()
    m = Model(cls.__name__ == "NullTimer")
    blocks = []
    for i, k in enumerate(seq):
        NOW[0] += 2.0 ** (i - 9)
        op, name = OPS[k]
        ok = True
        try:
            if op == "start":
                want = m.start(name)
                t.start(name)
            elif op == "stop":
                want = m.stop(name)
                t.stop(name)
            elif op == "enter":
                want = m.start(name)
                ctx = t.clock(name)
                # a rejected block is not entered; later leaves refer to a null block
                blocks.append(None)
                ctx.__enter__()
                blocks[-1] = (ctx, name)
            elif op in ("leave", "raise"):
                top = blocks.pop()
                want = True
                if top is not None:
                    ctx, name = top
                    want = m.stop(name)
                    if op == "leave":
                        ctx.__exit__(None, None, None)
                    else:
                        bad = leave_raising(ctx, i + k + len(seq))
                        if bad and not want and bad.startswith("replaced"):
                            ok = False  # the block's own stop was rejected
                        elif bad:
                            raise Violation(f"{show(seq[:i+1])}: the block {bad}")
            elif op == "query":
                want = True
                query(t, m, seq[:i + 1])
                for table in (t.times, t.hits):
                    try:
                        table["a"] = 1e9
                        table["zz"] = 3
                        table.pop("b", None)
                    except TypeError:
                        pass
            else:
                want = getattr(m, op)()
                getattr(t, op)()
        except Violation:
            raise
        except Exception as err:
            ok = False
            if want:
                raise Violation(f"{show(seq[:i+1])}: raised {type(err).__name__}: {err}")
        if ok and not want:
            raise Violation(f"{show(seq[:i+1])}: accepted, expected an error")
    query(t, m, seq)
    return tuple(sorted(m.total.items()))


def show(seq):
    return ",".join(OPS[k][0] + ("(" + OPS[k][1] + ")" if OPS[k][1] else "") for k in seq)


def run_job(job, rec):
    util = patch()
    warnings.resetwarnings()
    warnings.simplefilter("always")
    warnings.showwarning = note_warning
    sys.unraisablehook = lambda *a: None  # blocks left open at the end of a sequence
    cls = getattr(util, job["cls"])
    prefix = tuple(job["prefix"])
    rec.states += 1

    def walk(seq):
        for k in range(len(OPS)):
            s = seq + (k,)
            if not valid(s):
                continue
            rec.states += 1
            if len(s) == job["depth"]:
                rec.transitions += len(s)
                rec.traces += 1
                rec.note_outcome(execute(cls, s))
            else:
                walk(s)

    for k in range(len(OPS)):
        s = prefix + (k,)
        if not valid(s):
            continue
        rec.states += 1
        rec.case({"cls": job["cls"], "prefix": show(s)}, lambda: walk(s))
    rec.sample({"cls": job["cls"], "prefix": show(prefix), "depth": job["depth"]})
