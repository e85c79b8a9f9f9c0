"""C10: transposition and conversion keep data and metadata consistent."""
import itertools

import numpy as np
import xarray as xr

from mc import load
from mc.core import Violation
from mc.fields import KINDS, Spec, same, first_diff

ID = "C10"
LEVEL = "exploration"
RULE = (
    "every ordered dimension list of up to 4 dimensions over centre/interface/vertical/tile names, every target order "
    "by name and by family, every invalid target class, every pair of accessors, and every inconsistent metadata "
    "length; storage, metadata and results compared; distinct = distinct (dims, target or accessor pair)"
)
ASSUMPTIONS = ["dimension names of one quantity are distinct"]
FAMILY = {"x": 0, "x_interface": 0, "y": 1, "y_interface": 1, "z": 2, "z_interface": 2, "tile": 3, "z_soil": 4}
FAMS = {0: ("x", "x_interface"), 1: ("y", "y_interface"), 2: ("z", "z_interface"), 3: ("tile",), 4: ("z", "z_soil")}
GEOM = [(0, 2, 1), (1, 3, 0), (2, 1, 2), (1, 4, 1)]
DTYPES = ("f8", "f4", "i4", "?", "i8", "i2")


def dim_lists():
    out = [()]
    pools = [("x", "x_interface"), ("y", "y_interface"), ("z", "z_interface", "z_soil"), ("tile",)]
    for n in (1, 2, 3, 4):
        for fams in itertools.combinations(range(4), n):
            for names in itertools.product(*[pools[f] for f in fams]):
                out += list(itertools.permutations(names))
    return out


def jobs(tier, seed):
    return [{"part": k, "parts": 24, "weight": 1} for k in range(24)]


def run_job(job, rec):
    util = load.util()
    for k, dims in list(enumerate(dim_lists()))[job["part"] :: job["parts"]]:
        geoms = 4 if job["tier"] == "thorough" else 2
        for g in range(geoms):
            off = k + g
            geom = [GEOM[(off + i) % 4] for i in range(len(dims))]
            spec = Spec(
                dims, {d: a[1] for d, a in zip(dims, geom)}, {d: a[0] for d, a in zip(dims, geom)},
                {d: a[2] for d, a in zip(dims, geom)}, DTYPES[off % 6],
                KINDS[(k // 3 + g) % 6] if dims else "C", ("m", "kg/m^2", "", " K s-1 ", "K s-1")[off % 5],
            )
            vals = spec.values(10 * k, k)
            for ti, target in enumerate(itertools.permutations(range(len(dims)))):
                rec.case({"dims": dims, "geom": geom, "target": target, "kind": spec.kind},
                         lambda: transpose(util, rec, spec, vals, target))
            rec.case({"dims": dims, "geom": geom, "what": "conversions"}, lambda: conversions(util, spec, vals))
            rec.case({"dims": dims, "geom": geom, "what": "invalid"}, lambda: invalid(util, spec, vals))
            if g == 0:
                for a in ACCESS:
                    rec.case({"dims": dims, "geom": geom, "first": a}, lambda: accessors(util, rec, spec, vals, a))
        rec.case({"dims": dims, "what": "lengths"}, lambda: lengths(util, rec, dims, k))
    if job["part"] == 0:
        ambiguous(util, rec)
        plain(util, rec)
    rec.sample({"dims": dims, "geometry": geom, "kind": spec.kind})


def meta(q):
    return (tuple(q.dims), tuple(q.origin), tuple(q.extent), q.units, q.metadata.dtype, dict(q.attrs),
            dict(q.metadata.dim_lengths), q.data.flags.writeable, q.data.shape, q.data.dtype)


def unchanged(q, before, vals, data, what):
    if q.data is not data:
        raise Violation(f"{what}: the quantity's data is another array")
    if meta(q) != before:
        raise Violation(f"{what}: metadata changed from {before} to {meta(q)}")
    if not same(q.data, vals):
        raise Violation(f"{what}: data changed: " + first_diff(q.data, vals))


def transpose(util, rec, spec, vals, order):
    q = spec.quantity(util, vals)
    data, before = q.data, meta(q)
    tdims = [spec.dims[i] for i in order]
    fam = [FAMS[FAMILY[d]] for d in tdims]
    targets = [list(tdims), tuple(tdims), fam, [list(reversed(f)) for f in fam], [set(f) for f in fam],
               [d if i % 2 else f for i, (d, f) in enumerate(zip(tdims, fam))], [iter(f) for f in fam],
               [(d for d in f) for f in fam], [dict.fromkeys(f) for f in fam]]
    for target in targets:
        rec.count("transposes")
        t = q.transpose(target)
        name = f"transpose of {spec.dims} to {target}"
        if tuple(t.dims) != tuple(tdims):
            raise Violation(f"{name}: dims {t.dims}")
        for attr in ("origin", "extent"):
            want = tuple(getattr(spec, attr)[i] for i in order)
            if tuple(getattr(t, attr)) != want:
                raise Violation(f"{name}: {attr} {getattr(t, attr)}, expected {want}")
        if t.units != spec.units or t.metadata.dtype != q.metadata.dtype or dict(t.attrs) != dict(q.attrs):
            raise Violation(f"{name}: units {t.units!r} dtype {t.metadata.dtype}")
        ref = vals.transpose(order)
        if not same(t.data, ref):
            raise Violation(f"{name}: " + first_diff(t.data, ref))
        if not same(t.view[:], spec.compute(vals).transpose(order)):
            raise Violation(f"{name}: compute domain differs")
        back = t.transpose(list(spec.dims))
        if meta(back)[:7] != before[:7] or not same(back.data, vals):
            raise Violation(f"{name}: transposing back does not give the original")
        unchanged(q, before, vals, data, name)


def rejected(fn, what, errors):
    try:
        fn()
    except errors:
        return
    raise Violation(f"{what} was accepted")


def invalid(util, spec, vals):
    q = spec.quantity(util, vals)
    data, before = q.data, meta(q)
    dims = list(spec.dims)
    for i in range(len(dims)):
        rejected(lambda: q.transpose(dims[:i] + ["nonexistent"] + dims[i + 1 :]), f"missing target in {dims}", ValueError)
        rejected(lambda: q.transpose(dims[:i] + [("a", "b")] + dims[i + 1 :]), f"family without match in {dims}", ValueError)
        rejected(lambda: q.transpose(dims[:i] + dims[i + 1 :]), f"target lacking {dims[i]}", ValueError)
        if len(dims) > 1:
            j = (i + 1) % len(dims)
            rejected(lambda: q.transpose(dims[:i] + [(dims[i], dims[j])] + dims[i + 1 :]), f"ambiguous family in {dims}", ValueError)
        for j in range(len(dims) + 1):
            rejected(lambda: q.transpose(dims[:j] + [dims[i]] + dims[j:]), f"{dims[i]} given twice", ValueError)
        unchanged(q, before, vals, data, "rejected transpose")


def conversions(util, spec, vals):
    q = spec.quantity(util, vals)
    data, before = q.data, meta(q)
    da = q.data_array
    comp = spec.compute(vals)
    if tuple(da.dims) != spec.dims or not same(np.asarray(da.values), comp) or dict(da.attrs) != {"units": spec.units}:
        raise Violation(f"data_array of {spec.dims} has dims {da.dims} attrs {da.attrs}")
    q2 = util.Quantity.from_data_array(da)
    if tuple(q2.dims) != spec.dims or q2.units != spec.units or tuple(q2.extent) != spec.extent or any(q2.origin):
        raise Violation("from_data_array(data_array) metadata differs")
    if not same(q2.view[:], comp) or q2.metadata.dtype != q.metadata.dtype:
        raise Violation("from_data_array(data_array) data differs")
    full = xr.DataArray(vals.copy(), dims=spec.dims, attrs={"units": spec.units, "long_name": "n"})
    q3 = util.Quantity.from_data_array(full, origin=spec.origin, extent=spec.extent)
    if meta(q3)[:4] != before[:4] or not same(q3.data, vals) or not same(q3.view[:], comp):
        raise Violation("from_data_array with origin and extent differs from the direct construction")
    q4 = util.Quantity.from_data_array(full, origin=spec.origin)
    if tuple(q4.extent) != tuple(s - o for s, o in zip(spec.shape, spec.origin)):
        raise Violation(f"default extent {q4.extent}")
    rejected(lambda: util.Quantity.from_data_array(xr.DataArray(vals.copy(), dims=spec.dims)), "DataArray without units", ValueError)
    v = q.values
    if not same(v, comp):
        raise Violation("values differ from the compute domain")
    unchanged(q, before, vals, data, "conversions")


ACCESS = {
    "data_array": lambda q: (q.data_array.dims, q.data_array.values.copy(), dict(q.data_array.attrs)),
    "values": lambda q: q.values.copy(),
    "view": lambda q: q.view[:].copy(),
    "attrs": lambda q: dict(q.attrs),
    "meta": lambda q: (q.dims, q.origin, q.extent, q.units, q.metadata.dtype, q.metadata.data_type),
    "dim_lengths": lambda q: dict(q.metadata.dim_lengths),
    "repr": lambda q: repr(q),
    "np": lambda q: q.np,
    "backend": lambda q: q.gt4py_backend,
    "transpose": lambda q: q.transpose(list(reversed(q.dims))).data.copy(),
    "sel": lambda q: np.array(q.sel(**{d: slice(0, 1) for d in q.dims[:1]})),
    "corner": lambda q: np.array(q.view.interior[:]),
    "storage": lambda q: storage(q),
    "attrs changed": lambda q: change(q.attrs),
    "data_array attrs changed": lambda q: change(q.data_array.attrs),
    "dim_lengths changed": lambda q: change(q.metadata.dim_lengths),
}


def change(table):
    """What a caller does to a table returned to it stays with the caller."""
    before = dict(table)
    for k in list(table):
        table[k] = "changed"
    table["added"] = "added"
    return before


def storage(q):
    try:
        return q.storage
    except TypeError:
        return None


def eq(a, b):
    if isinstance(a, np.ndarray):
        return same(a, b)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a == b


def accessors(util, rec, spec, vals, first):
    fresh = {n: f(spec.quantity(util, vals)) for n, f in ACCESS.items()}
    for second in ACCESS:
        rec.count("accessor_pairs")
        q = spec.quantity(util, vals)
        data, before = q.data, meta(q)
        ACCESS[first](q)
        unchanged(q, before, vals, data, f"reading {first}")
        got = ACCESS[second](q)
        if not eq(got, fresh[second]):
            raise Violation(f"{second} after {first} of {spec.dims}: {got!r}, expected {fresh[second]!r}")
        unchanged(q, before, vals, data, f"reading {first}, {second}")
        if not q.view[:].flags.writeable:
            raise Violation(f"the view is read-only after reading {first}, {second}")


def lengths(util, rec, dims, k):
    n = len(dims)
    shape = tuple(2 + i for i in range(n))
    for nd, no, ne in itertools.product((-1, 0, 1), repeat=3):
        if n + min(nd, no, ne) < 0:
            continue
        kw = {
            "dims": [f"d{i}" for i in range(n + nd)],
            "origin": (0,) * (n + no),
            "extent": (1,) * (n + ne),
        }
        rec.count("length_combinations")
        make = lambda: util.Quantity(np.zeros(shape), kw["dims"], "m", origin=kw["origin"], extent=kw["extent"])
        if (nd, no, ne) == (0, 0, 0):
            make()
        else:
            rejected(make, f"{n} dimensions with {n+nd} names, {n+no} origins, {n+ne} extents", ValueError)
        if no == 0 and ne == 0 and nd:
            rejected(lambda: util.Quantity(np.zeros(shape), kw["dims"], "m"), f"{n+nd} names for {n} dimensions", ValueError)


def ambiguous(util, rec):
    def go():
        q = util.Quantity(np.zeros((2, 3, 4)), ["x", "x_interface", "y"], "m")
        rejected(lambda: q.transpose([("x", "x_interface"), "x_interface", "y"]), "ambiguous family", ValueError)
        rejected(lambda: q.transpose(["y", util.X_DIMS, "x"]), "ambiguous family", ValueError)
        q2 = util.Quantity(np.zeros((2, 3)), ["x", "y"], "m")
        rejected(lambda: q2.transpose([util.X_DIMS, util.Z_DIMS]), "family without match", ValueError)
        rejected(lambda: q2.transpose(["x", "x"]), "repeated target", ValueError)
    rec.case({"what": "ambiguous"}, go)


def plain(util, rec):
    for value, dims in ((3, []), (2.5, []), ([1.0, 2.0, 3.0], ["x"]), ([[1, 2], [3, 4], [5, 6]], ["x", "y"])):
        for origin in (None, (1,) * len(dims)):
            def go():
                q = util.Quantity(value, dims, "m", origin=origin)
                ref = util.Quantity(np.asarray(value), dims, "m", origin=origin)
                if meta(q) != meta(ref) or not same(q.data, ref.data) or not same(q.view[:], ref.view[:]):
                    raise Violation(f"Quantity({value!r}) differs from the one made from an array")
            rec.case({"plain": repr(value), "origin": origin}, go)
