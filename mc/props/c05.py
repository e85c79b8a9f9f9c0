"""C05: boundaries describe the cube's topology, whatever was asked before."""
import gc
import itertools

from mc import cube, load
from mc.core import Violation

ID = "C05"
LEVEL = "exploration"
RULE = (
    "every (layout, rank, direction) compared with the embedded cube (or periodic tile); every ordered pair of "
    "queries on one fresh partitioner with the first answer overwritten by the caller in between; every ordered "
    "pair of layouts interleaved; distinct = distinct (layout, rank, direction, history)"
)
ASSUMPTIONS = ["turn counts are compared modulo a full turn"]

DIRS = {"WEST": (0, -1), "EAST": (0, 1), "NORTH": (1, 0), "SOUTH": (-1, 0),
        "NORTHWEST": (1, -1), "NORTHEAST": (1, 1), "SOUTHWEST": (-1, -1), "SOUTHEAST": (-1, 1)}


def cube_expected(n_sub):
    lay = cube.Layout(n_sub, 1)
    out = {}
    for r in range(lay.total):
        for name, (dj, di) in DIRS.items():
            nb = lay.neighbor(r, dj, di)
            if nb is None:
                out[name, r] = None
            else:
                rot = 0 if nb[1] is None else cube.rotations(lay.pos(r)[0], nb[1])
                out[name, r] = (r, nb[0], rot)
    return out


def tile_expected(layout):
    ny, nx = layout
    out = {}
    for r in range(ny * nx):
        j, i = divmod(r, nx)
        for name, (dj, di) in DIRS.items():
            out[name, r] = (r, ((j + dj) % ny) * nx + (i + di) % nx, 0)
    return out


def jobs(tier, seed):
    deep = tier == "thorough"
    out = []
    for n in range(1, 11 if deep else 8):
        out.append({"what": "all", "sys": "cube", "layout": [n, n], "weight": n ** 3})
    for n in (12, 17) + ((24, 47) if deep else ()):  # more ranks per tile (per cube) than fit in 7, 8 bits
        out.append({"what": "all", "sys": "cube", "layout": [n, n], "weight": n ** 3})
    for l in ((3, 50), (50, 3), (2, 150)):
        out.append({"what": "all", "sys": "tile", "layout": list(l), "weight": 50})
    for a in range(1, 9 if deep else 6):
        for b in range(1, 9 if deep else 6):
            out.append({"what": "all", "sys": "tile", "layout": [a, b], "weight": a * b})
    for n in (1, 2):
        out.append({"what": "pairs", "sys": "cube", "layout": [n, n], "part": 0, "parts": 1, "weight": 50 * n ** 4})
    parts = 16
    for n in (3, 4) if deep else (3,):
        for k in range(parts):
            out.append({"what": "pairs", "sys": "cube", "layout": [n, n], "part": k, "parts": parts, "weight": 500})
    for l in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 3), (4, 2)):
        out.append({"what": "pairs", "sys": "tile", "layout": list(l), "part": 0, "parts": 1, "weight": 30})
    out.append({"what": "mixed", "weight": 100})
    out.append({"what": "comm", "layouts": [1, 2, 3, 4], "weight": 100})
    return out


def new(util, system, layout):
    t = util.TilePartitioner(tuple(layout))
    return util.CubedSpherePartitioner(t) if system == "cube" else t


def expected(system, layout):
    return cube_expected(layout[0]) if system == "cube" else tile_expected(layout)


def check(b, want, what, type_):
    if want is None:
        if b is not None:
            raise Violation(f"{what}: expected no boundary, got {b}")
        return
    if b is None:
        raise Violation(f"{what}: expected (from, to, turns) {want}, got none")
    got = (b.from_rank, b.to_rank, b.n_clockwise_rotations % 4)
    if got != want or b.boundary_type != type_:
        raise Violation(f"{what}: expected (from, to, turns) {want}, got {got} type {b.boundary_type}")


def deface(b):
    if b is not None:
        b.to_rank, b.from_rank, b.n_clockwise_rotations, b.boundary_type = -99, -98, 7, -97


def run_job(job, rec):
    util = load.util()
    code = {n: getattr(util, n) for n in DIRS}
    what = job["what"]
    if what == "all":
        system, layout = job["sys"], job["layout"]
        exp = expected(system, layout)
        p = new(util, system, layout)
        for (name, r), want in exp.items():
            rec.case({"l": layout, "s": system, "r": r, "d": name},
                     lambda: check(p.boundary(code[name], r), want, f"{system} {layout} rank {r} {name}", code[name]))
        rec.sample({"layout": layout, "system": system, "example": list(exp.items())[-1]})
    elif what == "pairs":
        system, layout = job["sys"], job["layout"]
        exp = expected(system, layout)
        queries = list(exp)
        mine = queries[job["part"] :: job["parts"]]
        for q1 in mine:
            def go():
                for q2 in queries:
                    p = new(util, system, layout)
                    what = f"{system} {layout}: {q1} then {q2}"
                    a = p.boundary(code[q1[0]], q1[1])
                    check(a, exp[q1], what + " (first)", code[q1[0]])
                    deface(a)
                    b = p.boundary(code[q2[0]], q2[1])
                    check(b, exp[q2], what + " (second, after the caller changed the first)", code[q2[0]])
                    rec.transitions += 2
                    rec.note_distinct((system, tuple(layout), q1, q2))
            rec.case({"l": layout, "s": system, "q1": q1}, go, nontrivial=False)
    elif what == "mixed":
        def refuses(p, s):
            for d in ("WEST", "EAST", "NORTH", "SOUTH"):
                for rk in range(p.total_ranks):
                    try:
                        b = p.boundary(code[d], rk)
                    except Exception:  # noqa: B902
                        continue
                    raise Violation(f"unsupported cube layout {s}: rank {rk} {d} answered with {b}")

        for n in (2, 3, 4):
            for other in [(a, n * n // a) for a in range(1, n * n + 1) if n * n % a == 0 and a != n]:
                def unsupported():
                    e = cube_expected(n)
                    p, q = new(util, "cube", (n, n)), new(util, "cube", other)
                    refuses(new(util, "cube", other), other)
                    for name, rk in e:
                        check(p.boundary(code[name], rk), e[name, rk], f"cube {n} {name} {rk}", code[name])
                    refuses(q, other)
                    p = new(util, "cube", (n, n))
                    for name, rk in e:
                        check(p.boundary(code[name], rk), e[name, rk], f"cube {n} {name} {rk} after {other} refused", code[name])
                rec.case({"square": n, "unsupported": other}, unsupported)
        systems = [("cube", (1, 1)), ("cube", (2, 2)), ("cube", (3, 3)), ("tile", (2, 3)), ("tile", (3, 2)),
                   ("tile", (1, 3)), ("tile", (3, 1)), ("tile", (1, 4)), ("tile", (1, 6)), ("tile", (2, 2)), ("tile", (3, 3))]
        for s1, s2 in itertools.product(systems, systems):
            e1, e2 = expected(*s1), expected(*s2)

            def go():
                p1, p2 = new(util, *s1), new(util, *s2)
                for q in list(e1):
                    check(p1.boundary(code[q[0]], q[1]), e1[q], f"{s1} {q}", code[q[0]])
                    if q in e2:
                        check(p2.boundary(code[q[0]], q[1]), e2[q], f"{s2} {q} after {s1}", code[q[0]])
                    check(p1.boundary(code[q[0]], q[1]), e1[q], f"{s1} {q} again after {s2}", code[q[0]])
                    rec.transitions += 3
            rec.case({"first": s1, "second": s2}, go)

        def recycle():
            # partitioners created and discarded one after another: identity must not matter
            for k in range(30):
                s = systems[k % len(systems)]
                p = new(util, *s)
                e = expected(*s)
                for q in e:
                    check(p.boundary(code[q[0]], q[1]), e[q], f"{s} {q} after discarding others", code[q[0]])
                del p
                if k % 5 == 0:
                    gc.collect()
        rec.case({"recycled": 30}, recycle)

        def shared_tile():
            # a cube partitioner and its own tile partitioner share one object
            for n in (1, 2, 3):
                c = new(util, "cube", (n, n))
                ec, et = cube_expected(n), tile_expected((n, n))
                for order in (0, 1):
                    for q in ec:
                        if order and q in et:
                            check(c.tile.boundary(code[q[0]], q[1]), et[q], f"tile of cube {n} {q}", code[q[0]])
                        check(c.boundary(code[q[0]], q[1]), ec[q], f"cube {n} {q}", code[q[0]])
                        if q in et:
                            b = c.tile.boundary(code[q[0]], q[1])
                            check(b, et[q], f"tile of cube {n} {q}", code[q[0]])
                            deface(b)
        rec.case({"shared": "tile of a cube"}, shared_tile)
    elif what == "comm":
        class Stub:
            def __init__(self, r, n):
                self.r, self.n = r, n
            def Get_rank(self):
                return self.r
            def Get_size(self):
                return self.n

        for n in job["layouts"]:
            exp = cube_expected(n)

            def go():
                p = new(util, "cube", (n, n))
                for r in range(6 * n * n):
                    c = util.CubedSphereCommunicator(Stub(r, 6 * n * n), p)
                    for name in DIRS:
                        deface(p.boundary(code[name], r))
                    got = c.boundaries
                    want = {code[d] for d in DIRS if exp[d, r] is not None}
                    if set(got) != want:
                        raise Violation(f"communicator on rank {r} of {n}x{n} has boundaries {sorted(got)}, expected {sorted(want)}")
                    for d in DIRS:
                        if exp[d, r] is not None:
                            check(got[code[d]], exp[d, r], f"communicator boundaries {n}x{n} rank {r} {d}", code[d])
                    rec.transitions += len(want)
            rec.case({"communicator": n}, go)
