"""Geometric reference model of the cubed sphere: the six faces embedded in space.

Coordinates on a face are doubled integers: cell centre i is 2i+1, interface i is 2i,
the face spans 0..2N in both directions.  Leaving a face over one edge by a distance d
continues on the neighbouring face, d inside the shared edge.  Nothing here is derived
from the code under test: the neighbour, the rotation and the vector transformation all
follow from the embedding.
"""
import functools

import numpy as np

# face -> (point of (u, v), unit vector along x, unit vector along y); components 0..1
_FACES = [
    ((0, 0, 0), (1, 0, 0), (0, 1, 0)),
    ((1, 0, 0), (0, 0, 1), (0, 1, 0)),
    ((1, 1, 0), (0, 0, 1), (-1, 0, 0)),
    ((1, 1, 1), (0, -1, 0), (-1, 0, 0)),
    ((0, 1, 1), (0, -1, 0), (0, 0, -1)),
    ((0, 0, 1), (1, 0, 0), (0, 0, -1)),
]
ORIGIN = [np.array(f[0]) for f in _FACES]
XDIR = [np.array(f[1]) for f in _FACES]
YDIR = [np.array(f[2]) for f in _FACES]
# outward normal of a face of the unit cube
NORMAL = [2 * o + x + y - 1 for o, x, y in zip(ORIGIN, XDIR, YDIR)]
assert all(sorted(abs(n)) == [0, 0, 1] for n in NORMAL)


def point(face, cx, cy, n2):
    return ORIGIN[face] * n2 + XDIR[face] * cx + YDIR[face] * cy


def edge_of(cx, cy, n2):
    """(outward direction, distance) for a point beyond exactly one edge."""
    out = []
    if cx < 0:
        out.append(("w", -cx))
    if cx > n2:
        out.append(("e", cx - n2))
    if cy < 0:
        out.append(("s", -cy))
    if cy > n2:
        out.append(("n", cy - n2))
    return out


def out_dir(face, edge):
    return {"w": -XDIR[face], "e": XDIR[face], "s": -YDIR[face], "n": YDIR[face]}[edge]


def neighbor_face(face, edge):
    o = out_dir(face, edge)
    for f in range(6):
        if f != face and (NORMAL[f] == o).all():
            return f
    raise AssertionError


def cross(face, edge, cx, cy, n2):
    """Map a point (doubled coordinates, on or beyond `edge`) to the neighbouring face.
    Returns (face', cx', cy')."""
    d = {"w": -cx, "e": cx - n2, "s": -cy, "n": cy - n2}[edge]
    ex = 0 if edge == "w" else n2 if edge == "e" else cx
    ey = 0 if edge == "s" else n2 if edge == "n" else cy
    p = point(face, ex, ey, n2) - d * NORMAL[face]
    f2 = neighbor_face(face, edge)
    rel = p - ORIGIN[f2] * n2
    c = (int(rel @ XDIR[f2]), int(rel @ YDIR[f2]))
    assert (point(f2, c[0], c[1], n2) == p).all()
    return f2, c[0], c[1]


def vector_map(face, edge):
    """2x2 integer matrix M: a vector with components (u, v) on the neighbouring face
    has components M @ (u, v) on `face` when it is carried back over the shared edge."""
    o = out_dir(face, edge)
    f2 = neighbor_face(face, edge)
    n = NORMAL[face]
    # unfolding: on the neighbour, direction -n (away from the edge) continues `o`;
    # directions along the edge are unchanged
    def unfold(w):
        along_away = int(w @ (-n))
        rest = w - along_away * (-n)
        return rest + along_away * o
    cols = []
    for d in (XDIR[f2], YDIR[f2]):
        w = unfold(d)
        cols.append((int(w @ XDIR[face]), int(w @ YDIR[face])))
    return np.array(cols).T


def rotations(face, edge):
    """clockwise quarter turns data undergoes when moving from `face` to the neighbour:
    0 if the axes are parallel after unfolding."""
    m = vector_map(face, edge)
    # x' axis of the neighbour expressed in this face's frame
    x2 = tuple(m[:, 0])
    return {(1, 0): 0, (0, -1): 1, (-1, 0): 2, (0, 1): 3}[x2]


# ---------------------------------------------------------------------------------------
# subtiles


class Layout:
    """n_sub x n_sub ranks per tile, each nx x nx cells."""

    def __init__(self, n_sub, nx):
        self.n_sub = n_sub
        self.nx = nx
        self.n = n_sub * nx
        self.n2 = 2 * self.n
        self.per_tile = n_sub * n_sub
        self.total = 6 * self.per_tile

    def pos(self, rank):
        face, r = divmod(rank, self.per_tile)
        j, i = divmod(r, self.n_sub)
        return face, j, i

    def rank(self, face, j, i):
        return face * self.per_tile + j * self.n_sub + i

    def neighbor(self, rank, dj, di):
        """Rank holding the subtile displaced by (dj, di), each -1/0/1, and how it was
        reached: (rank, edge or None); None at a cube corner."""
        face, j, i = self.pos(rank)
        # centre of the displaced subtile in doubled coordinates
        cx = (2 * (i + di) + 1) * self.nx
        cy = (2 * (j + dj) + 1) * self.nx
        e = edge_of(cx, cy, self.n2)
        if len(e) == 2:
            return None
        if not e:
            return self.rank(face, j + dj, i + di), None
        edge = e[0][0]
        f2, c2x, c2y = cross(face, edge, cx, cy, self.n2)
        return self.rank(f2, c2y // (2 * self.nx), c2x // (2 * self.nx)), edge

    def locate(self, rank, cx, cy, dj, di):
        """Source of the point at doubled tile coordinates (cx, cy) of `rank`'s tile, taken
        from the subtile displaced by (dj, di): (rank, local doubled x, local doubled y,
        edge)."""
        nb = self.neighbor(rank, dj, di)
        if nb is None:
            return None
        r2, edge = nb
        face = self.pos(rank)[0]
        if edge is not None:
            f2, cx, cy = cross(face, edge, cx, cy, self.n2)
        _, j2, i2 = self.pos(r2)
        return r2, cx - 2 * i2 * self.nx, cy - 2 * j2 * self.nx, edge


@functools.lru_cache(maxsize=None)
def halo_map(n_sub, nx, xi, yi, n_points):
    """For each rank: list of (y, x, src_rank, src_y2, src_x2, edge) with y, x local
    indices relative to the compute domain origin, for the halo of a variable with
    staggering xi (1: on x interfaces), yi; src coordinates are doubled local
    coordinates."""
    lay = Layout(n_sub, nx)
    ex, ey = nx + xi, nx + yi
    out = []
    for rank in range(lay.total):
        face, j, i = lay.pos(rank)
        cells = []
        for y in range(-n_points, ey + n_points):
            dj = -1 if y < 0 else 1 if y >= ey else 0
            for x in range(-n_points, ex + n_points):
                di = -1 if x < 0 else 1 if x >= ex else 0
                if dj == 0 and di == 0:
                    continue
                cx = 2 * (i * nx + x) + (0 if xi else 1)
                cy = 2 * (j * nx + y) + (0 if yi else 1)
                src = lay.locate(rank, cx, cy, dj, di)
                if src is None:
                    continue
                r2, sx2, sy2, edge = src
                cells.append((y, x, r2, sy2, sx2, edge))
        out.append(cells)
    return out


@functools.lru_cache(maxsize=None)
def scalar_halo(n_sub, nx, xi, yi, n_points):
    """Index arrays per rank: (y, x, src_rank, src_y, src_x) for a scalar. The staggering of
    the source is the one seen through the rotation; the variable has the same dimension
    names on every rank, so for a quarter turn both dimensions must be equally staggered."""
    res = []
    for rank, cells in enumerate(halo_map(n_sub, nx, xi, yi, n_points)):
        rows = []
        for y, x, r2, sy2, sx2, edge in cells:
            oy, ox = (0 if yi else 1), (0 if xi else 1)
            if (sy2 - oy) % 2 or (sx2 - ox) % 2:
                return None  # not representable: quarter turn of a mixed staggering
            rows.append((y, x, r2, (sy2 - oy) // 2, (sx2 - ox) // 2))
        res.append(np.array(rows, dtype=int).reshape(-1, 5))
    return res


@functools.lru_cache(maxsize=None)
def vector_halo(n_sub, nx, stag_x, stag_y, n_points):
    """Per rank and component: rows (y, x, src_rank, src_component, src_y, src_x, sign).
    stag_x=(xi, yi) of the x component, stag_y of the y component."""
    lay = Layout(n_sub, nx)
    stag = (stag_x, stag_y)
    res = []
    maps = [halo_map(n_sub, nx, stag[c][0], stag[c][1], n_points) for c in (0, 1)]
    for rank in range(lay.total):
        face = lay.pos(rank)[0]
        per = []
        for comp in (0, 1):
            rows = []
            for y, x, r2, sy2, sx2, edge in maps[comp][rank]:
                m = np.eye(2, dtype=int) if edge is None else vector_map(face, edge)
                (src_comp,) = np.nonzero(m[comp])[0]
                sign = int(m[comp][src_comp])
                sxi, syi = stag[src_comp]
                oy, ox = (0 if syi else 1), (0 if sxi else 1)
                if (sy2 - oy) % 2 or (sx2 - ox) % 2:
                    return None
                rows.append((y, x, r2, int(src_comp), (sy2 - oy) // 2, (sx2 - ox) // 2, sign))
            per.append(np.array(rows, dtype=int).reshape(-1, 7))
        res.append(per)
    return res


@functools.lru_cache(maxsize=None)
def interface_sync(n_sub, nx):
    """Rows per rank: (component, y, x, src_rank, src_component, src_y, src_x, sign) for the
    shared edges overwritten by a vector interface synchronisation: the x component lives
    on (y_interface, x) and its northern row, the y component on (y, x_interface) and its
    eastern column are taken from the subtile across that edge."""
    lay = Layout(n_sub, nx)
    stag = ((0, 1), (1, 0))
    res = []
    for rank in range(lay.total):
        face, j, i = lay.pos(rank)
        rows = []
        for comp, (dj, di) in ((0, (1, 0)), (1, (0, 1))):
            for k in range(nx):
                y, x = (nx, k) if comp == 0 else (k, nx)
                xi, yi = stag[comp]
                cx = 2 * (i * nx + x) + (0 if xi else 1)
                cy = 2 * (j * nx + y) + (0 if yi else 1)
                r2, sx2, sy2, edge = lay.locate(rank, cx, cy, dj, di)
                m = np.eye(2, dtype=int) if edge is None else vector_map(face, edge)
                (src_comp,) = np.nonzero(m[comp])[0]
                sxi, syi = stag[src_comp]
                oy, ox = (0 if syi else 1), (0 if sxi else 1)
                assert (sy2 - oy) % 2 == 0 and (sx2 - ox) % 2 == 0
                rows.append(
                    (comp, y, x, r2, int(src_comp), (sy2 - oy) // 2, (sx2 - ox) // 2, int(m[comp][src_comp]))
                )
        res.append(np.array(rows, dtype=int))
    return res
