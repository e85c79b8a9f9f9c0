"""C12: pooled communication buffers are exclusive and transparent."""
import itertools

import numpy as np

from mc import load
from mc.core import Violation, leave_raising
from mc.fields import alloc, same, first_diff

ID = "C12"
LEVEL = "model_checking"
RULE = (
    "every sequence up to the stated depth of acquiring a send, receive or plain buffer for one of two array "
    "configurations, releasing any open buffer (in any order) or leaving it with an exception, for every pair of "
    "configurations (shapes, dtypes, allocators, memory layouts); after every operation all open buffers, arrays and "
    "overlaps are compared with the model; states are nodes of the sequence tree, every maximal path runs on the real code"
)
ASSUMPTIONS = [
    "a buffer is not used after it is released",
    "when a receive buffer is left with an exception its array holds either its old contents or those of the buffer",
]


MADE = {"empty": [], "filled": []}  # the arrays these allocators returned in the current history


def empty(shape, dtype=float):
    MADE["empty"].append(np.empty(shape, dtype=dtype))
    return MADE["empty"][-1]


def filled(shape, dtype=float):
    MADE["filled"].append(np.full(shape, 7, dtype=dtype))
    return MADE["filled"][-1]


ALLOC = {"np.empty": np.empty, "np.zeros": np.zeros, "empty": empty, "filled": filled}
# (shape, dtype, memory layout, allocator)
CONFIGS = [
    ((2, 3), "f8", "F", "np.empty"),
    ((2, 3), "f8", "strided", "np.empty"),
    ((3, 2), "f8", "F", "np.empty"),
    ((2, 3), "f8", "F", "filled"),
    ((2, 3), "i8", "F", "np.empty"),
    ((2, 3), "f4", "window", "np.empty"),
    ((2, 3), "f8", "C", "np.empty"),
    ((6,), "f8", "strided", "np.empty"),
    ((2, 2), "f8", "reversed", "np.zeros"),
    ((2, 1, 3), "f8", "swapped", "np.empty"),
    ((2, 3), "?", "F", "np.empty"),
    ((2, 0, 2), "f8", "F", "np.empty"),
    ((2, 3), "f8", "reversed", "np.zeros"),
    ((2, 3), "f8", "strided", "empty"),
    ((2, 3), "f8", "window", "filled"),
    ((2, 3), ">f8", "F", "np.empty"),
    ((150, 80), "f8", "F", "np.empty"),
    ((80, 150), "f8", "strided", "filled"),
]
LARGE = 2  # the last configurations: fewer operations and partners
KINDS = ("send", "recv", "plain")


def jobs(tier, seed):
    depth = 5 if tier == "thorough" else 4
    n = len(CONFIGS) - LARGE
    pairs = [(a, b) for a in range(n) for b in range(a, n)]
    out = [{"pair": list(p), "depth": depth, "weight": 1} for p in pairs]
    return out + [{"pair": [a, b], "depth": depth - 1, "weight": 3}
                  for a, b in [(n, n), (n, n + 1), (n + 1, n + 1), (0, n), (1, n + 1), (3, n + 1), (8, n)]]


class Open:
    __slots__ = ("kind", "ctx", "buf", "array", "old", "want", "cfg", "through")


def run(mod, allocs, cfgs, seq, timer_cls):
    """seq entries: ("acq", kind, cfg) | ("rel", i) | ("exc", i)."""
    for made in MADE.values():
        made.clear()
    opened = []
    pooled = []  # (buffer, allocator, shape, dtype) of the released ones
    done = []  # (array, expected values or pair of alternatives)
    serial = 0
    timer = timer_cls()
    for op in seq:
        if op[0] == "acq":
            _, kind, c = op
            shape, dtype, layout, allocator = CONFIGS[cfgs[c]]
            o = Open()
            o.kind, o.cfg = kind, cfgs[c]
            serial += 1
            vals = values(shape, dtype, serial)
            if kind == "plain":
                o.array, o.old = None, None
                o.ctx = mod.array_buffer(allocs[allocator], shape, np.dtype(dtype))
            else:
                o.array = alloc(shape, dtype, layout)
                o.array[...] = vals
                o.old = vals
                fn = mod.send_buffer if kind == "send" else mod.recv_buffer
                o.ctx = fn(allocs[allocator], o.array, timer) if serial % 2 else fn(allocs[allocator], o.array)
            buf = o.buf = o.ctx.__enter__()
            name = f"{show(seq, cfgs)}: {kind} buffer"
            if not isinstance(buf, np.ndarray) or buf.shape != shape or buf.dtype != np.dtype(dtype):
                raise Violation(f"{name} has {getattr(buf, 'shape', None)} {getattr(buf, 'dtype', None)}, expected {shape} {dtype}")
            o.through = o.array is not None and o.array.flags["C_CONTIGUOUS"]
            if o.through:
                if buf is not o.array:
                    raise Violation(f"{name}: a contiguous array was not passed through as itself")
            else:
                if not buf.flags["C_CONTIGUOUS"] or not buf.flags["WRITEABLE"]:
                    raise Violation(f"{name} is not a writeable contiguous array")
                if buf.size:
                    for who, made in MADE.items():
                        if any(np.shares_memory(buf, m) for m in made) != (who == allocator):
                            raise Violation(f"{name} of allocator {allocator} "
                                            + ("was not allocated by it" if who == allocator else f"was allocated by {who}"))
                for b, *kind_of in pooled:
                    if kind_of != [allocator, shape, np.dtype(dtype)] and np.shares_memory(buf, b):
                        raise Violation(f"{name} re-uses a released buffer of {kind_of}")
                for other in opened:
                    if np.shares_memory(buf, other.buf) or (other.array is not None and np.shares_memory(buf, other.array)):
                        raise Violation(f"{name} shares memory with another buffer in use")
                if o.array is not None and np.shares_memory(buf, o.array):
                    raise Violation(f"{name} shares memory with its array")
            if kind == "send":
                if not same(buf, vals):
                    raise Violation(f"{name}: " + first_diff(buf, vals))
                o.want = vals
            else:
                serial += 1
                o.want = values(shape, dtype, serial)
                if kind == "recv" and not o.through and not same(o.array, vals):
                    raise Violation(f"{name}: the array changed before the buffer was released")
                buf[...] = o.want
            opened.append(o)
        else:
            o = opened.pop(op[1])
            name = f"{show(seq, cfgs)}: leaving {o.kind} buffer"
            if op[0] == "rel":
                o.ctx.__exit__(None, None, None)
            else:
                bad = leave_raising(o.ctx, serial + op[1])
                if bad:
                    raise Violation(f"{name}: {bad}")
            if not o.through:
                _, _, _, allocator = CONFIGS[o.cfg]
                pooled.append((o.buf, allocator, o.buf.shape, o.buf.dtype))
            if o.kind == "send":
                done.append((o.array, (o.old,)))
            elif o.kind == "recv":
                done.append((o.array, (o.want,) if op[0] == "rel" else (o.want, o.old)))
        for o in opened:
            if not same(o.buf, o.want):
                raise Violation(f"{show(seq, cfgs)}: after {op}, an open {o.kind} buffer changed: " + first_diff(o.buf, o.want))
            if o.kind == "send" and not same(o.array, o.old):
                raise Violation(f"{show(seq, cfgs)}: after {op}, the array being sent changed")
            if o.kind == "recv" and not o.through and not same(o.array, o.old):
                raise Violation(f"{show(seq, cfgs)}: after {op}, the receiving array changed before release")
        for a, alternatives in done:
            if not any(same(a, w) for w in alternatives):
                raise Violation(f"{show(seq, cfgs)}: after {op}, a released array holds the wrong values: " + first_diff(a, alternatives[0]))
    # the timer passed in stays usable
    for name in ("pack", "unpack"):
        timer.start(name)
        timer.stop(name)


def values(shape, dtype, serial):
    n = int(np.prod(shape))
    if np.dtype(dtype).kind == "b":
        return (((np.arange(n) * 7 + serial * serial) >> 1) & 1).astype(bool).reshape(shape)
    return (np.arange(n) + 100 * serial).astype(dtype).reshape(shape)


def show(seq, cfgs):
    return ",".join(
        f"{s[1]}({CONFIGS[cfgs[s[2]]]})" if s[0] == "acq" else f"{'release' if s[0] == 'rel' else 'raise'}#{s[1]}" for s in seq
    )


def run_job(job, rec):
    util = load.util()
    import importlib

    mod = importlib.import_module(load.PKG + ".util.buffer")
    main = load.main_copy()
    cfgs = job["pair"]
    depth = job["depth"]
    same_cfg = cfgs[0] == cfgs[1]
    acquires = [("acq", k, c) for c in ((0,) if same_cfg else (0, 1)) for k in KINDS]
    if same_cfg:
        depth += 1

    def walk(seq, n_open):
        rec.states += 1
        if len(seq) == depth:
            main.reset()
            run(mod, ALLOC, cfgs, seq, util.Timer)
            rec.traces += 1
            rec.transitions += len(seq)
            return
        nxt = []
        if n_open < 3:
            nxt += [(a, n_open + 1) for a in acquires]
        for i in range(n_open):
            nxt += [(("rel", i), n_open - 1), (("exc", i), n_open - 1)]
        for op, m in nxt:
            walk(seq + (op,), m)

    for a in acquires:
        for b in acquires + [("rel", 0), ("exc", 0)]:
            key = {"configs": [CONFIGS[c] for c in cfgs], "prefix": show((a, b), cfgs), "depth": depth}
            rec.case(key, lambda: walk((a, b), 2 if b[0] == "acq" else 0))
    rec.sample(key)
    if cfgs == [0, 0]:
        for fn in (mod.send_buffer, mod.recv_buffer):
            def none():
                with fn(np.empty, None) as b:
                    if b is not None:
                        raise Violation("no array was given but a buffer was handed out")
            rec.case({"none": fn.__name__}, none)
