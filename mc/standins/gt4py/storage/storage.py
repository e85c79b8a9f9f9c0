"""CPU storages: ndarray subclasses with a backend, a default origin and the backend's memory layout."""
import numpy as np

LAYOUTS = ("debug", "numpy", "gtx86", "gtmc")


def _allocate(backend, shape, dtype):
    """Memory laid out as the backend wants it; the bytes are arbitrary until written."""
    n = len(shape)
    if backend in ("debug", "numpy"):
        order, align = tuple(range(n)), 1
    elif backend == "gtx86":  # first axis outermost, last contiguous, rows aligned
        order, align = tuple(range(n)), 4
    elif backend == "gtmc":  # first axis innermost, padded to the alignment
        order, align = tuple(range(1, n)) + (0,) if n else (), 8
    else:
        raise NotImplementedError(f"no such backend in this environment: {backend}")
    big = [shape[a] for a in order]
    if big:
        big[-1] = -(-big[-1] // align) * align
    raw = np.empty(int(np.prod(big, dtype=int)) * np.dtype(dtype).itemsize, np.uint8)
    raw[...] = 0xA5 if np.dtype(dtype).kind != "b" else 1
    field = raw.view(dtype).reshape(big)
    field = field[tuple(slice(0, shape[a]) for a in order) + (Ellipsis,)]
    return np.transpose(field, np.argsort(order) if order else None)


class Storage(np.ndarray):
    """The common base; never instantiated directly."""

    def __array_finalize__(self, obj):
        self._backend = getattr(obj, "_backend", None)
        self.default_origin = getattr(obj, "default_origin", None)
        self.mask = getattr(obj, "mask", None)

    @property
    def backend(self):
        return self._backend

    @property
    def data(self):
        return self.view(np.ndarray)


class CPUStorage(Storage):
    pass


class GPUStorage(Storage):
    pass


def _new(backend, default_origin, shape, dtype, mask, managed_memory, fill):
    shape = tuple(int(s) for s in shape)
    default_origin = tuple(int(o) for o in default_origin)
    if len(default_origin) != len(shape):
        raise ValueError("default_origin and shape differ in length")
    if any(o < 0 for o in default_origin) or any(s < 0 for s in shape):
        raise ValueError("negative origin or shape")
    out = _allocate(backend, shape, np.dtype(dtype)).view(CPUStorage)
    out._backend, out.default_origin = backend, default_origin
    out.mask = mask if mask is not None else (True,) * len(shape)
    if fill is not None:
        out[...] = fill
    return out


def empty(backend, default_origin, shape, dtype, mask=None, *, managed_memory=False):
    return _new(backend, default_origin, shape, dtype, mask, managed_memory, None)


def zeros(backend, default_origin, shape, dtype, mask=None, *, managed_memory=False):
    return _new(backend, default_origin, shape, dtype, mask, managed_memory, 0)


def ones(backend, default_origin, shape, dtype, mask=None, *, managed_memory=False):
    return _new(backend, default_origin, shape, dtype, mask, managed_memory, 1)


def from_array(data, backend, default_origin, shape=None, dtype=None, mask=None, *, managed_memory=False):
    data = np.asarray(data)
    return _new(backend, default_origin, shape or data.shape, dtype or data.dtype, mask, managed_memory, data)
