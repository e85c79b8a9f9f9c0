from .storage import empty, zeros, ones, from_array  # noqa
from .storage import Storage, CPUStorage, GPUStorage  # noqa
from . import storage  # noqa
