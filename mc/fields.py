"""Building quantities whose every storage element is globally unique, and comparing."""
import numpy as np

# what some extra dimensions are really called: only the names the library defines are horizontal or interfaces
NAMES = {"tracer": "xband_interface", "member": "year_interface"}
X = ("x", "x_interface")
Y = ("y", "y_interface")


def alloc(shape, dtype, kind):
    """An uninitialised array of `shape` with the requested memory layout."""
    shape = tuple(shape)
    if kind == "C":
        return np.empty(shape, dtype)
    if kind == "F":
        return np.empty(shape, dtype, order="F")
    if kind == "strided":
        big = np.empty(tuple(2 * s + 1 for s in shape), dtype)
        return big[tuple(slice(1, 2 * s + 1, 2) for s in shape)]
    if kind == "window":
        big = np.empty(tuple(s + 2 for s in shape), dtype)
        return big[tuple(slice(1, s + 1) for s in shape)]
    if kind == "reversed":
        return np.empty(shape, dtype)[tuple(slice(None, None, -1) for _ in shape)]
    if kind == "swapped":
        return np.moveaxis(np.empty(shape[1:] + shape[:1], dtype), -1, 0)
    raise ValueError(kind)


KINDS = ("C", "F", "strided", "window", "reversed", "swapped")


def mix(ids):
    """Deterministic hash of integer ids (vectorised splitmix)."""
    z = (ids.astype(np.uint64) + np.uint64(0x9E3779B97F4A7C15)) & np.uint64(0xFFFFFFFFFFFFFFFF)
    z = (z ^ (z >> np.uint64(30))) * np.uint64(0xBF58476D1CE4E5B9)
    z = (z ^ (z >> np.uint64(27))) * np.uint64(0x94D049BB133111EB)
    return z ^ (z >> np.uint64(31))


def encode(ids, dtype, salt=0, special=False):
    dtype = np.dtype(dtype)
    ids = np.asarray(ids)
    if dtype.kind == "b":
        return (mix(ids + salt * 1000003) & np.uint64(1)).astype(bool)
    if dtype.itemsize == 1 or dtype.itemsize == 2 and dtype.kind in "iuf":
        n = {1: 100, 2: 2000}[dtype.itemsize]
        return (mix(ids + salt * 1000003) % np.uint64(n)).astype(dtype)
    out = (ids + 1).astype(dtype)
    if dtype.kind == "f":
        out = out + dtype.type(0.5 if dtype.itemsize > 4 else 0)
        if special:
            out = np.where(ids % 29 == 7, np.nan, out).astype(dtype)
            out = np.where(ids % 31 == 11, np.inf, out).astype(dtype)
    if dtype.kind == "c":
        out = out * (1 + 1j)
    return out


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind in "fc":
        return bool(((a == b) | (np.isnan(a) & np.isnan(b))).all())
    return bool((a == b).all())


def first_diff(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return f"shape/dtype {a.shape} {a.dtype} vs expected {b.shape} {b.dtype}"
    eq = a == b
    if a.dtype.kind in "fc":
        eq = eq | (np.isnan(a) & np.isnan(b))
    bad = np.argwhere(~eq)
    i = tuple(int(k) for k in bad[0])
    return f"{len(bad)} elements differ, first at {i}: got {a[i]!r}, expected {b[i]!r}"


class Spec:
    """Shape of one variable on one rank."""

    def __init__(self, dims, sizes, lo, hi, dtype="f8", kind="C", units="m"):
        """sizes/lo/hi: dict dim -> compute size / points before / points after."""
        self.dims = tuple(dims)
        self.names = tuple(NAMES.get(d, d) for d in dims)
        self.origin = tuple(lo.get(d, 0) for d in dims)
        self.extent = tuple(sizes[d] for d in dims)
        self.shape = tuple(lo.get(d, 0) + sizes[d] + hi.get(d, 0) for d in dims)
        self.dtype = np.dtype(dtype)
        self.kind = kind
        self.units = units

    @property
    def size(self):
        return int(np.prod(self.shape))

    def values(self, base, salt=0, special=False):
        ids = np.arange(self.size).reshape(self.shape) + base
        return encode(ids, self.dtype, salt, special)

    def array(self, values):
        a = alloc(self.shape, self.dtype, self.kind)
        a[...] = values
        return a

    def quantity(self, util, values):
        return util.Quantity(
            self.array(values), self.names, self.units, origin=self.origin, extent=self.extent
        )

    def axis(self, which):
        for i, d in enumerate(self.dims):
            if d in which:
                return i
        return None

    def compute(self, arr):
        return arr[tuple(slice(o, o + e) for o, e in zip(self.origin, self.extent))]


def to_yx_last(arr, spec):
    """View with y, x as the last axes, other axes restricted to the compute domain."""
    ya, xa = spec.axis(Y), spec.axis(X)
    idx = tuple(
        slice(None) if i in (ya, xa) else slice(o, o + e)
        for i, (o, e) in enumerate(zip(spec.origin, spec.extent))
    )
    return np.moveaxis(arr[idx], (ya, xa), (-2, -1))
