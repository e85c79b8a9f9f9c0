"""C09: views index relative to the compute domain exactly."""
import itertools

import numpy as np

from mc import load
from mc.core import Violation
from mc.fields import KINDS, Spec, same, first_diff

ID = "C09"
LEVEL = "exploration"
RULE = (
    "every quantity of 0 to 3 dimensions over the stated origins, extents and paddings; in one dimension every integer "
    "and every slice (start, stop, step) inside the storage for every view, in two and three dimensions every "
    "combination of representative entries per axis; each index read, written and selected by name, and the whole "
    "storage compared; distinct = distinct (dims, origin, extent, padding, view, index)"
)
ASSUMPTIONS = [
    "slice steps are positive and end points lie within the storage, except that with a zero origin negative bounds of the "
    "plain view count from the end as in the documented view[1:-1]",
    "bounds given explicitly for non-horizontal dimensions of the interior view are not promised (documented for horizontal ones)",
]
VIEWS = ("view", "northwest", "northeast", "southwest", "southeast", "interior")
HX, HY = ("x", "x_interface"), ("y", "y_interface")


def jobs(tier, seed):
    out = []
    for d in ("x", "x_interface", "y", "y_interface", "z", "z_interface", "tile", "z_soil"):
        out.append({"nd": 1, "dims": [d], "weight": 20})
    pairs = list(itertools.permutations(("x", "y"), 2)) + list(itertools.permutations(("x_interface", "y"), 2))
    pairs += list(itertools.permutations(("x", "y_interface"), 2)) + [("x_interface", "y_interface"), ("y_interface", "x_interface")]
    pairs += [("x", "z"), ("z", "x_interface"), ("z", "y"), ("y_interface", "z"), ("z", "ensemble"), ("x", "x_interface")]
    for p in pairs:
        out.append({"nd": 2, "dims": list(p), "weight": 30})
    for yi, xi in itertools.product((0, 1), (0, 1)):
        for p in itertools.permutations((HX[xi], HY[yi], "z")):
            out.append({"nd": 3, "dims": list(p), "weight": 40})
    out.append({"nd": 0, "dims": [], "weight": 1})
    if tier == "thorough":
        for p in itertools.permutations(("x", "y", "z", "ensemble")):
            out.append({"nd": 4, "dims": list(p), "weight": 80})
    return out


def shift(view, dim):
    """(start edge, stop edge): 0 = start of compute domain, 1 = end of compute domain."""
    if view == "view":
        return 0, 0
    if view == "interior":
        return 0, 1
    if dim in HX:
        return (1, 1) if view.endswith("east") else (0, 0)
    if dim in HY:
        return (1, 1) if view.startswith("north") else (0, 0)
    return 0, 0


def expected(view, dims, spec, index):
    """Lists of storage positions per axis (int for an integer entry)."""
    out = []
    for i, d in enumerate(dims):
        o, e = spec.origin[i], spec.extent[i]
        s0, s1 = shift(view, d)
        entry = index[i] if i < len(index) else slice(None)
        if isinstance(entry, slice):
            a = o if entry.start is None else o + s0 * e + entry.start
            b = o + e if entry.stop is None else o + s1 * e + entry.stop
            if view == "view" and o == 0:
                if entry.start is not None and entry.start < 0:
                    a = e + entry.start
                if entry.stop is not None and entry.stop < 0:
                    b = e + entry.stop
            out.append(list(range(a, b, entry.step or 1)))
        else:
            out.append(o + s0 * e + entry)
    return out


def entries1(view, dim, o, e, p):
    """All integers and slices whose end points lie in the storage, relative to the view's edges."""
    n = o + e + p
    s0, s1 = shift(view, dim)
    a0, a1 = o + s0 * e, o + s1 * e
    ints = [k - a0 for k in range(n)]
    starts = [None] + [k - a0 for k in range(n + 1)]
    stops = [None] + [k - a1 for k in range(n + 1)]
    if view == "view" and o == 0:
        starts += list(range(-e, 0))
        stops += list(range(-e, 0))
    out = list(ints)
    if view == "interior" and dim not in HX + HY:
        return out + [slice(None), slice(None, None, 2)]
    for a in starts:
        for b in stops:
            out.append(slice(a, b))
            out.append(slice(a, b, 2))
    return out


def entries_few(view, dim, o, e, p):
    """Representative entries of one axis."""
    s0, s1 = shift(view, dim)
    n = o + e + p
    a0, a1 = o + s0 * e, o + s1 * e
    out = [slice(None)]
    for k in {0, o, n - 1}:
        if 0 <= k < n:
            out.append(k - a0)
    if view == "interior" and dim not in HX + HY:
        return out
    for a, b in ((0, None), (None, n), (o, o + e), (0, o), (o + e, n)):
        out.append(slice(None if a is None else a - a0, None if b is None else b - a1))
    return out


def run_job(job, rec):
    util = load.util()
    dims = job["dims"]
    nd = job["nd"]
    deep = job["tier"] == "thorough"
    if nd == 0:
        zero_d(util, rec)
        return
    if nd == 1:
        mx = 4 if deep else 3
        geoms = list(itertools.product(range(mx + 1), range(mx + 1), range(mx + 1)))
        for k, g in enumerate(geoms):
            if sum(g) == 0:
                continue
            for view in VIEWS:
                one(util, rec, dims, (g,), view, entries1(view, dims[0], *g), KINDS[k % 6])
        rec.sample({"dims": dims, "origin,extent,pad": geoms[-1]})
        return
    per = [(0, 3, 0), (1, 2, 2), (2, 1, 1), (2, 2, 0)][: 4 if nd == 2 or deep else 3]
    for k, g in enumerate(itertools.product(per, repeat=nd)):
        if nd == 4 and (k % 3 or not deep):
            continue
        for view in VIEWS:
            lists = [entries_few(view, d, *gg) for d, gg in zip(dims, g)]
            if nd >= 3:
                # every pair of axes crossed in full, the remaining axes rotating
                combos = set()
                for i, j in itertools.combinations(range(nd), 2):
                    for ai, a in enumerate(lists[i]):
                        for bi, b in enumerate(lists[j]):
                            c = [(ai + 2 * bi + m) % len(lists[m]) for m in range(nd)]
                            c[i], c[j] = ai, bi
                            combos.add(tuple(c))
                idx = [tuple(lists[m][c[m]] for m in range(nd)) for c in sorted(combos)]
            else:
                idx = list(itertools.product(*lists))
            idx += [t[:m] for m in range(1, nd) for t in itertools.product(*lists[:m])]
            one(util, rec, dims, g, view, idx, KINDS[k % 6])
    rec.sample({"dims": dims, "geometry": g, "view": view, "index": repr(idx[-1])})


def get_view(q, view):
    return q.view if view == "view" else getattr(q.view, view)


def one(util, rec, dims, geom, view, indices, kind):
    lo = {d: g[0] for d, g in zip(dims, geom)}
    ext = {d: g[1] for d, g in zip(dims, geom)}
    hi = {d: g[2] for d, g in zip(dims, geom)}
    spec = Spec(dims, ext, lo, hi, "f8", kind)
    vals = spec.values(0)
    key = {"dims": dims, "geometry": geom, "view": view, "kind": kind}

    def go():
        q = spec.quantity(util, vals)
        v = get_view(q, view)
        for index in indices:
            if rec.full():
                return
            rec.count("indices")
            tup = index if isinstance(index, tuple) else (index,)
            want = expected(view, dims, spec, tup)
            grid = np.ix_(*[w if isinstance(w, list) else [w] for w in want])
            ref = vals[grid].reshape([len(w) for w in want if isinstance(w, list)])
            name = f"{view}[{tup}] of {dims} origin {spec.origin} extent {spec.extent} shape {spec.shape}"
            got = np.asarray(v[index])
            if got.shape != ref.shape or not (got == ref).all():
                raise Violation(f"{name}: selects {got.tolist()}, expected {ref.tolist()}")
            if any(isinstance(w, list) for w in want) and got.size:
                if not np.shares_memory(v[index], q.data):
                    raise Violation(f"{name}: result does not alias the storage")
            if isinstance(index, tuple) and len(index) > 1:
                gl = np.asarray(v[list(index)])
                if gl.shape != ref.shape or not (gl == ref).all():
                    raise Violation(f"{name}: list index differs from tuple index")
            sel = (q.sel if view == "view" else v.sel)(**{d: t for d, t in zip(dims, tup)})
            if np.asarray(sel).shape != ref.shape or not (np.asarray(sel) == ref).all():
                raise Violation(f"{name}: sel by name differs")
            # assignment changes exactly these points
            new = -1.0 - np.arange(ref.size).reshape(ref.shape)
            v[index] = new
            full = vals.copy()
            full[grid] = new.reshape([len(w) if isinstance(w, list) else 1 for w in want])
            if not same(q.data, full):
                raise Violation(f"{name}: assignment: " + first_diff(q.data, full))
            q.data[...] = vals
        # too many indices
        for extra in (0, slice(None), slice(0, 1)):
            bad = tuple([0] * len(dims)) + (extra,)
            for what in ("get", "set"):
                try:
                    if what == "get":
                        v[bad]
                    else:
                        v[bad] = 1.0
                except IndexError:
                    continue
                raise Violation(f"{view}: too many indices were accepted on {what}")
        if not same(q.data, vals):
            raise Violation(f"{view}: rejected index changed the storage")

    rec.case(key, go)


def zero_d(util, rec):
    for view in VIEWS:
        for dtype in ("f8", "i4", "?"):
            def go():
                q = util.Quantity(np.array(1, dtype=dtype), [], "m")
                v = get_view(q, view)
                for index in (slice(None), (), []):
                    got = v[index]
                    if np.asarray(got).shape != () or np.asarray(got) != np.array(1, dtype=dtype):
                        raise Violation(f"0-d {view}[{index!r}] gave {got!r}")
                    v[index] = 0
                    if q.data[()] != 0:
                        raise Violation(f"0-d {view}[{index!r}] = 0 did not change the storage")
                    q.data[...] = 1
                    if not np.shares_memory(v[slice(None)], q.data):
                        raise Violation("0-d view does not alias the storage")
                for bad in ((0,), (slice(None),), (0, 0), slice(0, 1)):
                    for what in ("get", "set"):
                        try:
                            if what == "get":
                                v[bad]
                            else:
                                v[bad] = 0
                        except IndexError:
                            continue
                        raise Violation(f"0-d {view}[{bad!r}] accepted on {what}")
                if q.data[()] != np.array(1, dtype=dtype):
                    raise Violation("rejected index changed the storage")
            rec.case({"zero_d": view, "dtype": dtype}, go)
