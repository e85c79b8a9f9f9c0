"""Halo exchanges as (kind, halo width, variables) with a geometric model of their effect.

kinds: S scalar halo update on cell centres, N scalar on nodes (interfaces),
       A/B/C/D vector halo update on that Arakawa grid, I interface synchronisation."""
import functools

import numpy as np

from mc import cube
from mc.fields import Spec, to_yx_last, same, first_diff, KINDS

STAGS = {
    "A": ((0, 0), (0, 0)),
    "B": ((1, 1), (1, 1)),
    "C": ((1, 0), (0, 1)),
    "D": ((0, 1), (1, 0)),
}
YD, XD = ("y", "y_interface"), ("x", "x_interface")


@functools.lru_cache(maxsize=None)
def rows(kind, n_sub, nx, n):
    """rows[rank][comp]: (y, x, src_rank, src_comp, src_y, src_x, sign)"""
    if kind in "SN":
        st = int(kind == "N")
        out = []
        for m in cube.scalar_halo(n_sub, nx, st, st, n):
            z = np.zeros((len(m), 7), dtype=int)
            z[:, [0, 1, 2, 4, 5]] = m
            z[:, 6] = 1
            out.append([z])
        return out
    if kind == "I":
        out = []
        for m in cube.interface_sync(n_sub, nx):
            out.append([m[m[:, 0] == c][:, 1:] for c in (0, 1)])
        return out
    return cube.vector_halo(n_sub, nx, STAGS[kind][0], STAGS[kind][1], n)


class Update:
    def __init__(self, lay, kind, n, order=("z", "Y", "X"), dtype="f8", mem="C", pad=0, base=0, salt=0,
                 like=None):
        self.lay, self.kind, self.n = lay, kind, n
        self.ncomp = 1 if kind in "SN" else 2
        if like is not None:  # shares its variables with another update
            self.specs, self.values, self.home = like.specs, like.values, like
            self.top = like.top
            return
        self.home = self
        nx = lay.nx
        sizes = {"x": nx, "y": nx, "x_interface": nx + 1, "y_interface": nx + 1, "z": 2, "z_soil": 2, "tracer": 2}
        self.specs, self.values = [], []
        halo = max(n, 1)
        for c in range(self.ncomp):
            if kind in "SN":
                xi = yi = int(kind == "N")
            else:
                xi, yi = STAGS["D" if kind == "I" else kind][c]
            dims = [("x_interface" if xi else "x") if d == "X" else ("y_interface" if yi else "y") if d == "Y"
                    else d for d in order]
            lo = {d: halo + (pad if d[0] in "xy" else 0) for d in dims if d[0] in "xy"}
            hi = {d: halo + pad for d in dims if d[0] in "xy"}
            per, vals = [], []
            for r in range(lay.total):
                s = Spec(dims, sizes, lo, hi, dtype, KINDS[r % 6] if mem == "mixed" else mem)
                per.append(s)
                vals.append(s.values(base, salt=salt))
                base += s.size
            self.specs.append(per)
            self.values.append(vals)
        self.top = base

    def quantities(self, util, r):
        return [self.specs[c][r].quantity(util, self.values[c][r]) for c in range(self.ncomp)]

    def start(self, comm, qs):
        if self.kind in "SN":
            return comm.start_halo_update(qs[0], self.n)
        if self.kind == "I":
            return comm.start_synchronize_vector_interfaces(qs[0], qs[1])
        return comm.start_vector_halo_update(qs[0], qs[1], self.n)

    def run(self, comm, qs):
        if self.kind in "SN":
            comm.halo_update(qs[0], self.n)
        elif self.kind == "I":
            comm.synchronize_vector_interfaces(qs[0], qs[1])
        else:
            comm.vector_halo_update(qs[0], qs[1], self.n)

    def snapshot(self, arrays):
        """arrays[comp][rank] -> what would be sent."""
        return [
            np.stack([self._interior(arrays[c][r], self.specs[c][r]) for r in range(self.lay.total)])
            for c in range(self.ncomp)
        ]

    @staticmethod
    def _interior(a, s):
        ya, xa = s.axis(YD), s.axis(XD)
        return to_yx_last(a, s)[
            ..., s.origin[ya] : s.origin[ya] + s.extent[ya], s.origin[xa] : s.origin[xa] + s.extent[xa]
        ].copy()

    def apply(self, src, arrays):
        """Write the effect of the update, sent as `src`, into arrays (in place)."""
        table = rows(self.kind, self.lay.n_sub, self.lay.nx, self.n)
        for c in range(self.ncomp):
            for r, s in enumerate(self.specs[c]):
                v = to_yx_last(arrays[c][r], s)
                oy, ox = s.origin[s.axis(YD)], s.origin[s.axis(XD)]
                t = table[r][c]
                for sc in range(self.ncomp):
                    m = t[t[:, 3] == sc]
                    if len(m):
                        y, x, r2, _, y2, x2, sign = m.T
                        picked = np.moveaxis(src[sc][r2, ..., y2, x2], 0, -1)
                        v[..., y + oy, x + ox] = np.where(sign < 0, -picked, picked) if sc != c or (sign < 0).any() else picked

    def keep_received(self, new, old, comp, rank):
        """Copy the points this update delivers from old into new."""
        s = self.specs[comp][rank]
        t = rows(self.kind, self.lay.n_sub, self.lay.nx, self.n)[rank][comp]
        y, x = t[:, 0] + s.origin[s.axis(YD)], t[:, 1] + s.origin[s.axis(XD)]
        to_yx_last(new, s)[..., y, x] = to_yx_last(old, s)[..., y, x]

    def fresh(self):
        return [[v.copy() for v in self.values[c]] for c in range(self.ncomp)]

    def compare(self, got, expected, what=""):
        """got/expected[comp][rank]; returns a message or None"""
        for c in range(self.ncomp):
            for r in range(self.lay.total):
                if not same(got[c][r], expected[c][r]):
                    return (f"{what} {self.kind} update (n={self.n}) component {c} on rank {r}: "
                            + first_diff(got[c][r], expected[c][r]))
        return None
