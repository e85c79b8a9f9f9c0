"""C26: copies of quantities and of other objects are independent and stay coherent."""
import copy
import itertools
import pickle

import numpy as np

from mc import load
from mc.core import Violation
from mc.fields import KINDS, Spec, same, first_diff
from mc.props import c05

ID = "C26"
LEVEL = "exploration"
RULE = (
    "every sequence, up to the stated depth, of copying (shallow, deep, pickling, as part of a state, as a new quantity on "
    "the same data, transposing) any of the quantities made so far and writing through any accessor of any of them, on every "
    "listed kind of quantity, all quantities read through every accessor after every operation; and every ordered pair "
    "of uses of a partitioner, sizer, boundary, metadata or timer and its copy; distinct = distinct (kind, sequence)"
)
ASSUMPTIONS = [
    "copies are made by copy.copy, copy.deepcopy and pickle, the means of the standard library",
    "whether a transposed quantity shares memory is asked of NumPy, not prescribed",
]
MAKE = ("copy", "deepcopy", "pickle", "state", "remake", "transpose")
WRITE = ("data", "view", "point", "interior", "southwest", "northeast", "sel")

# dims, geometry (points before, compute points, points after)
QUANTITIES = [
    (("y", "x"), ((2, 3, 2), (1, 2, 1))),
    (("z", "y_interface", "x"), ((0, 2, 0), (1, 2, 1), (1, 3, 2))),
    (("x_interface", "z", "y", "tile"), ((1, 2, 0), (0, 1, 1), (0, 2, 2), (0, 2, 0))),
    (("x",), ((1, 3, 1),)),
    (("z", "tile"), ((0, 2, 1), (1, 2, 0))),
    ((), ()),
]
DT = ("f8", "f4", "i4", "c16", "f8", "f8")


def jobs(tier, seed):
    out = []
    for q in range(len(QUANTITIES)):
        for k, first in enumerate(MAKE):
            out.append({"what": "history", "q": q, "first": first, "kind": KINDS[(q + k) % 6],
                        "depth": 4 if tier == "thorough" else 3, "weight": 30})
            if tier == "thorough":
                for j in range(1, 6):
                    out.append({"what": "history", "q": q, "first": first, "kind": KINDS[(q + k + j) % 6], "depth": 3, "weight": 3})
    out.append({"what": "objects", "weight": 10})
    out.append({"what": "timer", "weight": 10})
    out.append({"what": "written first", "weight": 10})
    return out


class Handle:
    """A quantity and what it must show: `mem` is a view (in the handle's order) of model memory."""

    def __init__(self, q, spec, mem):
        self.q, self.mem = q, mem
        self.dims, self.origin, self.extent, self.units = spec
        self.comp = tuple(slice(o, o + e) for o, e in zip(self.origin, self.extent))


def block(h, corner):
    """Index arguments of, and storage slices selected by, a 1-point block inside a corner of the compute domain."""
    arg, sl = [], []
    for d, o, e in zip(h.dims, h.origin, h.extent):
        end = (d[0] == "x" and corner == "northeast") or (d[0] == "y" and corner == "northeast")
        if d[0] in "xy":
            arg.append(slice(-1, 0) if end else slice(0, 1))
            sl.append(slice(o + e - 1, o + e) if end else slice(o, o + 1))
        else:
            arg.append(slice(None))
            sl.append(slice(o, o + e))
    return tuple(arg), tuple(sl)


def horizontal(h):
    return {d[0] for d in h.dims} >= {"x", "y"}


def write(h, how, value):
    """Writes `value` (made distinct by position) through an accessor; the same to the model."""
    q = h.q
    n = len(h.dims)
    if how == "data":
        q.data[...] = value
        h.mem[...] = value
    elif how == "view":
        q.view[:] = value
        h.mem[h.comp] = value
    elif how == "point":
        if not n:
            return False
        q.view[(0,) * n] = value
        h.mem[tuple(h.origin)] = value
    elif how == "interior":
        if not n:
            return False
        q.view.interior[tuple(slice(0, 0) if d[0] in "xy" else slice(None) for d in h.dims)] = value
        h.mem[h.comp] = value
    elif how in ("southwest", "northeast"):
        if not horizontal(h):
            return False
        arg, sl = block(h, how)
        getattr(q.view, how)[arg] = value
        h.mem[sl] = value
    elif how == "sel":
        if not n:
            return False
        part = q.sel(**{h.dims[0]: slice(0, 1)})
        part[...] = value
        h.mem[(slice(h.origin[0], h.origin[0] + 1),) + h.comp[1:]] = value
    return True


def look(h, what):
    q = h.q
    got = (tuple(q.dims), tuple(q.origin), tuple(q.extent), q.units, q.data.dtype, q.metadata.dtype, dict(q.attrs))
    want = (h.dims, h.origin, h.extent, h.units, h.mem.dtype, h.mem.dtype, {"units": h.units})
    if got != want:
        raise Violation(f"{what}: dims, origin, extent, units, dtypes, attrs {got}, expected {want}")
    if type(q.metadata) is not type(h.first.metadata) or q.metadata != type(q.metadata)(
            origin=h.origin, extent=h.extent, dims=h.dims, units=h.units, data_type=np.ndarray, dtype=h.mem.dtype):
        raise Violation(f"{what}: metadata {q.metadata}")
    if type(q.data) is not np.ndarray or q.np is not np:
        raise Violation(f"{what}: data of type {type(q.data)}")

    def agree(a, b, name):
        if not same(a, b):
            raise Violation(f"{what}: {name}: " + first_diff(a, b))

    comp = h.mem[h.comp]
    agree(q.data, h.mem, "data")
    agree(q.view[:], comp, "view")
    agree(q.values, comp, "values")
    if tuple(q.view.origin) != h.origin or tuple(q.view.extent) != h.extent:
        raise Violation(f"{what}: view has origin {q.view.origin} extent {q.view.extent}")
    if h.dims:
        agree(q.sel(**{h.dims[-1]: 0}), comp[..., 0], "sel")
        agree(q.view.interior[tuple(slice(0, 0) if d[0] in "xy" else slice(None) for d in h.dims)], comp, "interior")
    if horizontal(h):
        for corner in ("southwest", "northeast"):
            arg, sl = block(h, corner)
            agree(getattr(q.view, corner)[arg], h.mem[sl], corner)


def read_array(h, what):
    a = h.q.data_array
    if tuple(a.dims) != h.dims or dict(a.attrs) != {"units": h.units} or not same(np.asarray(a.values), h.mem[h.comp]):
        raise Violation(f"{what}: data_array has dims {a.dims} attrs {a.attrs}, or other values")


def duplicate(util, h, how, protocol):
    """A new handle made from `h` and whether it must share h's memory (None: either)."""
    q = h.q
    meta = (h.dims, h.origin, h.extent, h.units)
    if how == "copy":
        return Handle(copy.copy(q), meta, None), True
    if how == "deepcopy":
        return Handle(copy.deepcopy(q), meta, None), False
    if how == "pickle":
        return Handle(pickle.loads(pickle.dumps(q, protocol=protocol)), meta, None), False
    if how == "state":
        state = {"time": None, "a": q, "again": q}
        new = copy.deepcopy(state)
        if set(new) != set(state) or new["a"] is not new["again"] or state["a"] is not q:
            raise Violation("a deep copy of a state does not keep its structure")
        return Handle(new["a"], meta, None), False
    if how == "remake":
        return Handle(util.Quantity(q.data, q.dims, q.units, origin=q.origin, extent=q.extent), meta, None), True
    order = list(range(1, len(h.dims))) + [0] if h.dims else []
    new = q.transpose([h.dims[i] for i in order])
    pick = lambda s: tuple(s[i] for i in order)
    return Handle(new, (pick(h.dims), pick(h.origin), pick(h.extent), h.units), None), None


def adopt(h, parent, shares, how, what):
    really = np.shares_memory(h.q.data, parent.q.data)
    if shares is not None and really != shares:
        raise Violation(f"{what}: {'shares no' if shares else 'shares'} memory with what it was made from")
    mem = parent.mem
    if how == "transpose":
        order = [parent.dims.index(d) for d in h.dims]
        mem = mem.transpose(order)  # a view of the same model memory
    h.mem = mem if really else np.array(mem)
    h.first = parent.first
    return h


def root(util, job):
    dims, geom = QUANTITIES[job["q"]]
    spec = Spec(dims, {d: g[1] for d, g in zip(dims, geom)}, {d: g[0] for d, g in zip(dims, geom)},
                {d: g[2] for d, g in zip(dims, geom)}, DT[job["q"]], job["kind"] if dims else "C", ("m", "kg m-2", "")[job["q"] % 3])
    vals = spec.values(3, 1)
    h = Handle(spec.quantity(util, vals), (spec.dims, spec.origin, spec.extent, spec.units), np.array(vals))
    h.first = h.q
    return h


def run(util, rec, job, seq):
    handles = [root(util, job)]
    for i, (op, k) in enumerate(seq):
        what = f"{QUANTITIES[job['q']][0]} {job['kind']}: {show(seq[: i + 1])}"
        h = handles[k]
        if op in MAKE:
            new, shares = duplicate(util, h, op, 2 + (i + k) % 4)
            handles.append(adopt(new, h, shares, op, what))
        else:
            write(h, op, 1000 + 7 * i)
        for j, x in enumerate(handles):
            look(x, f"{what}: quantity {j}")
    for j, x in enumerate(handles):
        read_array(x, f"{show(seq)}: quantity {j}")
        look(x, f"{show(seq)}, data_array: quantity {j}")
    rec.transitions += len(seq)
    rec.traces += 1


def show(seq):
    return ", ".join(f"{op} of {k}" for op, k in seq)


def useful(job, op):
    dims = QUANTITIES[job["q"]][0]
    if op in ("point", "interior", "sel"):
        return bool(dims)
    if op in ("southwest", "northeast"):
        return {d[0] for d in dims} >= {"x", "y"}
    return op not in ("transpose",) or len(dims) > 1


def sequences(job, depth):
    ops_m = [m for m in MAKE if useful(job, m)]
    ops_w = [w for w in WRITE if useful(job, w)]
    if not useful(job, job["first"]):
        return

    def grow(seq, n):
        if len(seq) == depth:
            yield seq
            return
        for k in range(n):
            if n < 4 and len(seq) < depth - 1:  # a copy made last is looked at too, in the sequences with a write after it
                for m in ops_m:
                    yield from grow(seq + ((m, k),), n + 1)
            for w in ops_w:
                yield from grow(seq + ((w, k),), n)

    yield from grow(((job["first"], 0),), 2)


def run_job(job, rec):
    util = load.util()
    if job["what"] == "history":
        depth = job["depth"]
        for seq in sequences(job, depth):
            rec.case({"q": job["q"], "kind": job["kind"], "ops": show(seq)}, lambda: run(util, rec, job, seq))
        rec.sample({"quantity": QUANTITIES[job["q"]], "kind": job["kind"], "depth": depth})
    elif job["what"] == "objects":
        objects(util, rec)
    elif job["what"] == "written first":
        written(util, rec)
    else:
        timers(util, rec)


COPIES = {
    "copy": copy.copy, "deepcopy": copy.deepcopy,
    "pickle": lambda o: pickle.loads(pickle.dumps(o)), "old pickle": lambda o: pickle.loads(pickle.dumps(o, protocol=2)),
}


def written(util, rec):
    """Quantities written and read before they are copied; copies of copies; copies outliving the original."""
    for q in range(len(QUANTITIES)):
        for kind in KINDS:
            job = {"q": q, "kind": kind}
            for w, (c1, c2) in itertools.product(WRITE, itertools.product(MAKE[:4], repeat=2)):
                if not useful(job, w):
                    continue

                def go():
                    h = root(util, job)
                    look(h, "made")
                    read_array(h, "made")
                    write(h, w, 77)
                    a, s = duplicate(util, h, c1, 4)
                    adopt(a, h, s, c1, f"{c1} after {w}")
                    b, s = duplicate(util, a, c2, 3)
                    adopt(b, a, s, c2, f"{c2} of {c1} after {w}")
                    write(a, w, 78)
                    del h
                    for x, n in ((a, c1), (b, f"{c2} of {c1}")):
                        look(x, f"{n} after {w} and after the original is gone")
                        write(x, "data", 5)
                        look(x, f"{n} written")
                rec.case({"q": q, "kind": kind, "write": w, "copies": [c1, c2]}, go)


def answers(util, o, system, layout):
    code = {n: getattr(util, n) for n in c05.DIRS}
    for (name, r), want in c05.expected(system, layout).items():
        c05.check(o.boundary(code[name], r), want, f"{system} {layout} rank {r} {name}", code[name])


def slices(util, o, system):
    meta = util.QuantityMetadata(origin=(1, 0, 1), extent=(4, 2, 4), dims=("y", "z", "x"), units="m", data_type=np.ndarray, dtype=np.dtype("f8"))
    lay = tuple(o.layout)
    ranks = range(o.total_ranks)
    dims, ext = (("tile", "y", "z", "x"), (6, 12, 2, 12)) if system == "cube" else (("y", "z", "x"), (12, 2, 12))
    return lay, tuple(o.global_extent(meta)), [tuple(o.subtile_slice(r, dims, ext, overlap=ov)) for r in ranks for ov in (False, True)]


def objects(util, rec):
    for system, layout in (("cube", (1, 1)), ("cube", (2, 2)), ("cube", (3, 3)), ("tile", (1, 2)), ("tile", (3, 2)), ("tile", (2, 2))):
        ref = slices(util, c05.new(util, system, layout), system)
        uses = {"boundaries": lambda o: answers(util, o, system, layout),
                "slices": lambda o: expect(slices(util, o, system), ref, "slices")}
        for (n, make), before, order in itertools.product(COPIES.items(), (None,) + tuple(uses), itertools.product(itertools.product((0, 1), uses), repeat=2)):
            def go():
                p = c05.new(util, system, layout)
                if before:
                    uses[before](p)
                both = (p, make(p))
                for who, use in order:
                    uses[use](both[who])
                rec.transitions += 2
            rec.case({"partitioner": [system, layout], "copy": n, "before": before, "order": order}, go)
    for n, make in COPIES.items():
        def go():
            for nx, ny, nz, h, extra in ((3, 4, 5, 3, {}), (1, 2, 1, 0, {"a": 2}), (4, 4, 2, 1, {"b": 1, "c": 7})):
                s = util.SubtileGridSizer(nx, ny, nz, h, dict(extra))
                t = make(s)
                lists = [("y", "x"), ("z", "y_interface", "x"), ("x_interface", "z_interface")] + [(d, "x") for d in extra]
                for d in lists:
                    for f in ("get_origin", "get_extent", "get_shape"):
                        expect(getattr(t, f)(d), getattr(s, f)(d), f"{f}{d} of a copied sizer")
        rec.case({"sizer": n}, go)

        def go():
            for system, layout in (("cube", (2, 2)), ("tile", (2, 3))):
                p = c05.new(util, system, layout)
                for (name, r), want in c05.expected(system, layout).items():
                    b = p.boundary(getattr(util, name), r)
                    if b is None:
                        continue
                    c = make(b)
                    c05.check(c, want, f"copied boundary {name} of rank {r}", getattr(util, name))
                    spec = Spec(("z", "y", "x"), {"z": 2, "y": 4, "x": 5}, {"y": 2, "x": 3}, {"y": 2, "x": 2})
                    q = spec.quantity(util, spec.values(1))
                    for view in ("send_view", "recv_view"):
                        for w in (1, 2):
                            v, u = getattr(b, view)(q, w), getattr(c, view)(q, w)
                            if not same(u, v) or not (v.size == 0 or np.shares_memory(u, v)):
                                raise Violation(f"{view} of a copied boundary {name} of rank {r} differs")
                    c05.deface(c)
                    c05.check(b, want, f"boundary {name} of rank {r} after its copy was changed", getattr(util, name))
        rec.case({"boundary": n}, go)

        def go():
            for dims, geom in QUANTITIES:
                for dt in ("f8", "f4", "i4", ">f8", "?"):
                    q = util.Quantity(np.zeros([sum(g) for g in geom], dt), dims, "m", origin=[g[0] for g in geom], extent=[g[1] for g in geom])
                    m = make(q.metadata)
                    if m != q.metadata or m.dim_lengths != dict(zip(dims, [g[1] for g in geom])) or m.np is not np or m.dtype != np.dtype(dt):
                        raise Violation(f"copied metadata {m} of {q.metadata}")
                    for attr, value in (("units", "?"), ("dims", ()), ("origin", ()), ("extent", ()), ("dtype", None)):
                        setattr(m, attr, value)
                    if q.units != "m" or tuple(q.dims) != dims or q.metadata.dtype != np.dtype(dt) or tuple(q.origin) != tuple(g[0] for g in geom):
                        raise Violation("changing copied metadata changed the quantity")
        rec.case({"metadata": n}, go)


def expect(got, want, what):
    if got != want:
        raise Violation(f"{what}: {got}, expected {want}")


def timers(util, rec):
    """A deep copy of a timer has its history and its running clocks and goes on by itself."""
    from mc.props import c18

    util = c18.patch()
    steps = [("start", "a"), ("stop", "a"), ("start", "b"), ("stop", "b"), ("reset", None), ("disable", None), ("enable", None)]

    def apply(t, m, op, name):
        args = (name,) if name else ()
        want = getattr(m, op)(*args)
        try:
            getattr(t, op)(*args)
        except Exception:  # noqa: B902
            if want:
                raise
            return
        if not want:
            raise Violation(f"{op} {name} was accepted")

    def state(t, m, what):
        if dict(t.times) != m.total or dict(t.hits) != m.count or bool(t.enabled) != m.enabled:
            raise Violation(f"{what}: times {t.times} hits {t.hits}, expected {m.total} {m.count}")

    for n, make in list(COPIES.items())[1:]:
        for before in [s for k in (0, 1, 2, 3) for s in itertools.product(steps, repeat=k)]:
            def go():
                for after in itertools.product(((0, s) for s in steps), ((1, s) for s in steps)):
                    for order in (after, after[::-1]):
                        c18.NOW[0] = 2.0 ** 30
                        t, m = util.Timer(), c18.Model(False)
                        for i, (op, name) in enumerate(before):
                            c18.NOW[0] += 2.0 ** (i - 9)
                            apply(t, m, op, name)
                        both = ((t, m), (make(t), copy.deepcopy(m)))
                        for i, (who, (op, name)) in enumerate(order):
                            c18.NOW[0] += 2.0 ** (i - 5)
                            apply(*both[who], op, name)
                        rec.transitions += len(before) + 2
                        for k in (0, 1):
                            state(*both[k], f"{before} {n} {order}, timer {k}")
            rec.case({"timer": n, "before": before}, go)
