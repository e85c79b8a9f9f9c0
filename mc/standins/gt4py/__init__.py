"""Stand-in for the part of gt4py (storage API of version 0.1, the one fv3gfs-util is written for) that
does not need a compiler or a GPU: CPU storages. Used by C23 only."""
__version__ = "0.1.0"
from . import storage  # noqa
