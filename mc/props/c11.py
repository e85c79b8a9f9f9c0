"""C11: corner filling copies the right halo cells at cube corners only."""
import itertools

import numpy as np

from mc import load
from mc.core import Violation
from mc.fields import KINDS, Spec, same, first_diff

ID = "C11"
LEVEL = "exploration"
RULE = (
    "every rank of every layout in the bound, both directions, every staggering, halo width 0 to 3, with a family of "
    "extents, paddings, extra dimensions, dtypes and memory layouts, plus repeated fills; every storage element "
    "compared with the fold over the corner's diagonal; distinct = distinct (layout, rank, dims, direction, width, shape)"
)
ASSUMPTIONS = [
    "the first two dimensions are x then y, and n does not exceed the halo or the interior points next to the corner",
]
EXTRAS = ((), ("z",), ("z_interface", "member"))
DTYPES = ("f8", "f4", "i4", "?", "i8", "i2")


def jobs(tier, seed):
    top = 5 if tier == "thorough" else 3
    out = []
    for l in itertools.product(range(1, top + 1), repeat=2):
        out.append({"layout": list(l), "weight": l[0] * l[1]})
    out += [{"layout": [1, 5], "weight": 5}, {"layout": [6, 2], "weight": 12}]
    return out


def run_job(job, rec):
    util = load.util()
    layout = tuple(job["layout"])
    total = layout[0] * layout[1]
    part = util.TilePartitioner(layout)
    deep = job["tier"] == "thorough"
    k = 0
    for rank in range(6 * total):
        j, i = divmod(rank % total, layout[1])
        for xi, yi, direction, n in itertools.product((0, 1), (0, 1), "xy", (0, 1, 2, 3)):
            for ex in EXTRAS:
                for rep in range(3 if deep else 1):
                    k += 1
                    dims = ("x_interface" if xi else "x", "y_interface" if yi else "y") + ex
                    h = n + (k % 3) if k % 2 else max(n, 1)
                    sizes = {dims[0]: n + 1 + k % 4, dims[1]: n + 1 + (k // 4) % 4, "z": 2, "z_interface": 3, "member": 2}
                    lo = {dims[0]: h + k % 2, dims[1]: h}
                    hi = {dims[0]: h, dims[1]: h + (k // 2) % 2}
                    if ex and k % 4 == 0:
                        lo[ex[0]] = hi[ex[0]] = 1
                    spec = Spec(dims, sizes, lo, hi, DTYPES[k % 6], KINDS[(k // 6) % 6])
                    key = {"layout": layout, "rank": rank, "dims": dims, "dir": direction, "n": n, "shape": spec.shape,
                           "origin": spec.origin, "extent": spec.extent, "kind": spec.kind, "dtype": spec.dtype.str}
                    rec.case(key, lambda: one(util, rec, part, layout, rank, (j, i), spec, direction, n, k, key),
                             nontrivial=n > 0)
        for xi, yi, direction, n in itertools.product((0, 1), (0, 1), "xy", (1, 4, 7)):  # sizes of real use
            k += 1
            dims = ("x_interface" if xi else "x", "y_interface" if yi else "y") + ((), ("z",))[(k + n) % 2]
            spec = Spec(dims, {dims[0]: 48 + xi, dims[1]: 33 + yi, "z": 20}, {dims[0]: n, dims[1]: n + 1, "z": 0},
                        {dims[0]: n + 1, dims[1]: n, "z": 1}, DTYPES[k % 6], KINDS[(k // 6) % 6])
            key = {"layout": layout, "rank": rank, "dims": dims, "dir": direction, "n": n, "shape": spec.shape, "kind": spec.kind}
            rec.case(key, lambda: one(util, rec, part, layout, rank, (j, i), spec, direction, n, k, key))
    rec.sample(key)


def fold(vals, spec, layout, pos, direction, n):
    """The expected storage."""
    out = vals.copy()
    j, i = pos
    sides_x = ([-1] if i == 0 else []) + ([1] if i == layout[1] - 1 else [])
    sides_y = ([-1] if j == 0 else []) + ([1] if j == layout[0] - 1 else [])
    shared = (int(spec.dims[0] == "x_interface"), int(spec.dims[1] == "y_interface"))
    rest = tuple(slice(o, o + e) for o, e in zip(spec.origin[2:], spec.extent[2:]))

    def outward(axis, side, dist):  # dist = 1 is the point next to the compute domain
        o, e = spec.origin[axis], spec.extent[axis]
        return o - dist if side < 0 else o + e - 1 + dist

    def inward(axis, side, k):  # k = 0 is the first point that is not shared with the neighbour
        o, e = spec.origin[axis], spec.extent[axis]
        k += shared[axis]
        return o + k if side < 0 else o + e - 1 - k

    for sx, sy in itertools.product(sides_x, sides_y):
        for a in range(1, n + 1):
            for b in range(1, n + 1):
                if direction == "x":
                    src = (outward(0, sx, b), inward(1, sy, a - 1))
                else:
                    src = (inward(0, sx, b - 1), outward(1, sy, a))
                out[(outward(0, sx, a), outward(1, sy, b)) + rest] = vals[src + rest]
    return out


def one(util, rec, part, layout, rank, pos, spec, direction, n, salt, key):
    from fv3gfs.util import fill_scalar_corners

    vals = spec.values(salt, salt)
    q = spec.quantity(util, vals)
    fill_scalar_corners(q, direction, part, rank, n)
    want = fold(vals, spec, layout, pos, direction, n)
    if not same(q.data, want):
        raise Violation(f"{key}: " + first_diff(q.data, want))
    if (q.dims, q.origin, q.extent, q.units) != (spec.names, spec.origin, spec.extent, spec.units):
        raise Violation(f"{key}: metadata changed")
    if salt % 3 == 0:
        # filling again along the other direction only depends on the edges, not on the blocks
        other = "y" if direction == "x" else "x"
        fill_scalar_corners(q, other, part, rank, n)
        want2 = fold(vals, spec, layout, pos, other, n)
        if not same(q.data, want2):
            raise Violation(f"{key} then {other}: " + first_diff(q.data, want2))
        data = q.data.copy()
        for bad, err in (("z", TypeError), (None, TypeError)):
            try:
                fill_scalar_corners(q, bad, part, rank, n)
            except err:
                pass
            else:
                raise Violation(f"direction {bad!r} was accepted")
        swapped = (spec.names[1], spec.names[0]) + spec.names[2:]
        p = util.Quantity(q.data, swapped, "m", origin=spec.origin, extent=spec.extent)
        try:
            fill_scalar_corners(p, direction, part, rank, n)
        except ValueError:
            pass
        else:
            raise Violation("a quantity with y before x was accepted")
        if not same(q.data, data):
            raise Violation("a rejected fill changed the quantity")
