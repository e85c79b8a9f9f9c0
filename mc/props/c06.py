"""C06: the decomposition is an exact cover and its size functions are inverse."""
import itertools

import numpy as np

from mc import load
from mc.core import Violation

ID = "C06"
LEVEL = "exploration"
RULE = (
    "every (layout, points per rank, ordered dimension list, staggering, overlap) of the stated product; slices of "
    "all ranks compared with the closed form and, independently, painted on the global index space; distinct = "
    "distinct (system, layout, sizes, dimension list)"
)
ASSUMPTIONS = ["global sizes that divide evenly (others are outside the library's contract)"]

EXTRAS = ((), ("z",), ("z_interface",), ("z_soil",), ("year_interface",), ("z", "year_interface"))


def dim_lists(small=False):
    out = []
    for xi, yi in itertools.product((0, 1), (0, 1)):
        h = ("y_interface" if yi else "y", "x_interface" if xi else "x")
        for ex in EXTRAS:
            if small and len(ex) > 1:
                continue
            out += [list(p) for p in itertools.permutations(h + ex)]
        for ex in EXTRAS:
            out += [list(p) for p in itertools.permutations(h[:1] + ex)]
            out += [list(p) for p in itertools.permutations(h[1:] + ex)]
    out += [[], ["z"], ["z_interface", "year_interface"]]
    seen, uniq = set(), []
    for d in out:
        if tuple(d) not in seen:
            seen.add(tuple(d))
            uniq.append(d)
    return uniq


def jobs(tier, seed):
    deep = tier == "thorough"
    out = []
    top = 7 if deep else 5
    for ny in range(1, top + 1):
        for nx in range(1, top + 1):
            out.append({"what": "grid", "layout": [ny, nx], "weight": ny * nx})
    for lo in range(1, 257 if not deep else 513, 16):
        out.append({"what": "axis", "lo": lo, "hi": lo + 15, "weight": 1 + lo // 8})
    for lo in range(1, 41, 4):
        out.append({"what": "ranks", "lo": lo, "hi": lo + 3, "weight": 5})
    out.append({"what": "large", "weight": 5})
    return out


class Meta:
    pass


def metadata(util, dims, extent):
    return util.QuantityMetadata(
        origin=(0,) * len(dims), extent=tuple(extent), dims=tuple(dims), units="m",
        data_type=np.ndarray, dtype=np.float64,
    )


Z = {"z": 4, "z_interface": 5, "z_soil": 3, "year_interface": 2}


def lengths(dims, ny, nx):
    out = []
    for d in dims:
        if d in ("y", "y_interface"):
            out.append(ny + (d == "y_interface"))
        elif d in ("x", "x_interface"):
            out.append(nx + (d == "x_interface"))
        else:
            out.append(Z[d])
    return tuple(out)


def want_slice(dims, layout, my, mx, j, i, overlap):
    out = []
    for d in dims:
        if d in ("y", "y_interface"):
            k, m, n = j, my, layout[0]
        elif d in ("x", "x_interface"):
            k, m, n = i, mx, layout[1]
        else:
            out.append((0, Z[d]))
            continue
        shared = d.endswith("interface") and (overlap or k == n - 1)
        out.append((k * m, (k + 1) * m + int(shared)))
    # vertical interfaces belong to the single rank in the vertical
    return out


def norm(sl, ext):
    return [s.indices(e)[:2] for s, e in zip(sl, ext)]


_partitioners = {}


def partitioners(util, layout):
    """One pair of objects per layout, used for all sizes and dimension lists in turn."""
    key = (id(util), tuple(layout))
    if key not in _partitioners:
        tp = util.TilePartitioner(tuple(layout))
        _partitioners[key] = util, tp, util.CubedSpherePartitioner(tp)
    return _partitioners[key][1:]


def check_layout(util, layout, my, mx, dims, paint):
    tp, cp = partitioners(util, layout)
    ny, nx = layout
    ext = lengths(dims, ny * my, nx * mx)
    sub = lengths(dims, my, mx)
    per = ny * nx
    for name, p, gdims, gext, n in (
        ("tile", tp, tuple(dims), ext, per),
        ("cube", cp, ("tile",) + tuple(dims), (6,) + ext, 6 * per),
    ):
        got = tuple(p.subtile_extent(metadata(util, gdims, gext)))
        if got != sub:
            raise Violation(f"{name} layout {layout}: rank extent of {gdims} {gext} is {got}, expected {sub}")
        got = tuple(p.global_extent(metadata(util, dims, sub)))
        if got != gext:
            raise Violation(f"{name} layout {layout}: global extent of {dims} {sub} is {got}, expected {gext}")
        for v in p.subtile_extent(metadata(util, gdims, gext)) + tuple(got):
            if not isinstance(v, (int, np.integer)):
                raise Violation(f"extent {v!r} is not an integer")
        for overlap in (False, True):
            owner = np.full(gext, -1) if paint else None
            count = np.zeros(gext, dtype=int) if paint else None
            for r in range(n):
                sl = p.subtile_slice(r, gdims, gext, overlap=overlap)
                if len(sl) != len(gdims):
                    raise Violation(f"slice {sl} has wrong length for {gdims}")
                t, rr = divmod(r, per)
                j, i = divmod(rr, nx)
                want = want_slice(dims, layout, my, mx, j, i, overlap)
                tail = sl[1:] if name == "cube" else sl
                if name == "cube" and not (sl[0] == t and not isinstance(sl[0], slice)):
                    raise Violation(f"cube rank {r}: tile index {sl[0]}, expected {t}")
                if norm(tail, ext) != [tuple(w) for w in want]:
                    raise Violation(
                        f"{name} layout {layout} rank {r} dims {gdims} global {gext} overlap={overlap}: "
                        f"slice {sl}, expected {want}"
                    )
                if paint:
                    count[sl] += 1
                    owner[sl] = np.maximum(owner[sl], r)
                    if overlap and tuple(np.shape(owner[sl])) != sub:
                        raise Violation(f"overlapping slice has shape {owner[sl].shape}, rank extent {sub}")
            if paint and not overlap:
                both = any(d in ("y", "y_interface") for d in dims) and any(d in ("x", "x_interface") for d in dims)
                if (both or per == 1) and not (count == 1).all():
                    raise Violation(f"{name} {layout} {gdims}: not an exact cover (counts {np.unique(count)})")
                if both:
                    nonover = owner
            if paint and overlap and both:
                # the non-overlapping owner of every point is the greatest rank holding it
                if not (nonover == owner).all():
                    raise Violation(f"{name} {layout} {gdims}: shared points are not owned by the greater rank")


def run_job(job, rec):
    util = load.util()
    if job["what"] == "grid":
        layout = job["layout"]
        for my, mx in itertools.product((1, 2, 3), (1, 2, 3)):
            for dims in dim_lists(small=job["tier"] == "quick" and my * mx > 2):
                rec.case({"layout": layout, "m": [my, mx], "dims": dims},
                         lambda: check_layout(util, layout, my, mx, dims, True))
        rec.sample({"layout": layout, "points": [3, 3], "dims": dims})
    elif job["what"] == "axis":
        for n in range(job["lo"], job["hi"] + 1):
            for m in (1, 2, 3, 4, 5, 48):
                for dims in (["y", "x"], ["y_interface", "x_interface"], ["z_interface", "x_interface", "y"]):
                    for layout, a, b in (([n, 1], m, 2), ([1, n], 2, m)):
                        rec.case({"layout": layout, "m": [a, b], "dims": dims},
                                 lambda: (extents_only if n > 32 and m not in (1, 3) else check_axis)(util, layout, a, b, dims))
    elif job["what"] == "large":
        for n in (1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 48, 64, 96):
            for m in (12, 24, 48, 96, 128, 192, 384):
                for dims in (["z", "y", "x"], ["z", "y_interface", "x"], ["y_interface", "x_interface"]):
                    rec.case({"layout": [n, n], "m": m, "dims": dims}, lambda: extents_only(util, [n, n], m, m, dims))
    else:
        for ny in range(job["lo"], job["hi"] + 1):
            for nx in range(1, 13):
                rec.case({"ranks": [ny, nx]}, lambda: check_ranks(util, ny, nx))


def extents_only(util, layout, my, mx, dims):
    tp = util.TilePartitioner(tuple(layout))
    ext = lengths(dims, layout[0] * my, layout[1] * mx)
    sub = lengths(dims, my, mx)
    if tuple(tp.subtile_extent(metadata(util, dims, ext))) != sub:
        raise Violation(f"layout {layout}: rank extent of {dims} {ext} is {tp.subtile_extent(metadata(util, dims, ext))}, expected {sub}")
    if tuple(tp.global_extent(metadata(util, dims, sub))) != ext:
        raise Violation(f"layout {layout}: global extent of {dims} {sub} is wrong")
    last = layout[0] * layout[1] - 1
    for r in sorted({0, last // 2, last}):
        j, i = divmod(r, layout[1])
        for overlap in (False, True):
            got = norm(tp.subtile_slice(r, dims, ext, overlap=overlap), ext)
            want = [tuple(w) for w in want_slice(dims, layout, my, mx, j, i, overlap)]
            if got != want:
                raise Violation(f"layout {layout} rank {r} dims {dims}: slice {got}, expected {want}")


def check_axis(util, layout, my, mx, dims):
    tp = util.TilePartitioner(tuple(layout))
    ext = lengths(dims, layout[0] * my, layout[1] * mx)
    sub = lengths(dims, my, mx)
    extents_only(util, layout, my, mx, dims)
    for r in range(layout[0] * layout[1]):
        j, i = divmod(r, layout[1])
        for overlap in (False, True):
            got = norm(tp.subtile_slice(r, dims, ext, overlap=overlap), ext)
            want = [tuple(w) for w in want_slice(dims, layout, my, mx, j, i, overlap)]
            if got != want:
                raise Violation(f"layout {layout} rank {r} dims {dims}: slice {got}, expected {want}")


def check_ranks(util, ny, nx):
    for tp in (util.TilePartitioner((ny, nx)), util.TilePartitioner.from_namelist({"fv_core_nml": {"layout": (ny, nx)}})):
        per = ny * nx
        if tp.total_ranks != per or tuple(tp.layout) != (ny, nx):
            raise Violation(f"tile of {ny}x{nx}: {tp.total_ranks} ranks, layout {tp.layout}")
        cubes = (util.CubedSpherePartitioner(tp), util.CubedSpherePartitioner.from_namelist({"fv_core_nml": {"layout": (ny, nx)}}))
        for cp in cubes:
            if cp.total_ranks != 6 * per or tuple(cp.layout) != (ny, nx):
                raise Violation(f"cube of {ny}x{nx}: {cp.total_ranks} ranks, layout {cp.layout}")
            seen = set()
            for r in range(6 * per):
                t, rr = divmod(r, per)
                pos = (cp.tile_index(r),) + tuple(int(v) for v in cp.tile.subtile_index(r % per))
                if pos != (t,) + divmod(rr, nx):
                    raise Violation(f"{ny}x{nx} rank {r}: (tile, y, x) {pos}, expected {(t,) + divmod(rr, nx)}")
                if cp.tile_root_rank(r) != t * per:
                    raise Violation(f"{ny}x{nx} rank {r}: tile root {cp.tile_root_rank(r)}")
                if util.get_tile_index(r, 6 * per) != t:
                    raise Violation(f"get_tile_index({r}, {6 * per}) = {util.get_tile_index(r, 6 * per)}")
                if util.partitioner.get_tile_number(r, 6 * per) != t + 1:
                    raise Violation(f"get_tile_number({r}, {6 * per})")
                seen.add(pos)
            if len(seen) != 6 * per:
                raise Violation("positions are not unique")
            for r in range(per):
                j, i = divmod(r, nx)
                t = cp.tile
                got = (bool(t.on_tile_top(r)), bool(t.on_tile_bottom(r)), bool(t.on_tile_left(r)), bool(t.on_tile_right(r)))
                if got != (j == ny - 1, j == 0, i == 0, i == nx - 1):
                    raise Violation(f"{ny}x{nx} rank {r}: edge predicates (top, bottom, left, right) {got}")
    for n in range(1, 25):
        for f in (util.get_tile_index, util.partitioner.get_tile_number):
            if n % 6:
                try:
                    f(0, n)
                except ValueError:
                    continue
                raise Violation(f"{n} ranks accepted although not divisible by 6")
