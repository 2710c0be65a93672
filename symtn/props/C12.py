"""A CTMRG run consists of complete sweeps over the unit cell."""
from ..harness import Harness
from . import util

KEYS = ("left", "right", "up", "down")


def sweep(w, nmax, smax, dist):
    from acetn.renormalization import ctmrg as mod
    from acetn.renormalization.directional_mover import DirectionalMover
    nx = w.integer("nx", 2, nmax)
    ny = w.integer("ny", 2, nmax)
    steps = w.integer("steps", 0, smax)
    log = []
    net = util.Obj(nx=nx, ny=ny, rank=0, world_size=2 if dist else 1, is_distributed=dist)
    cfg = util.Obj(steps=steps, disable_progressbar=True, projectors="half-system", svd_type="rsvd", svd_cutoff=1e-12,
                   rsvd_niter=2, rsvd_oversampling=2)
    add = lambda k: (lambda self, ipeps, i: log.append((k, i)))

    def two(a, b):
        def f(self, ipeps, i, j):
            log.append((a, i))
            log.append((b, j))
        return f
    with util.patched((DirectionalMover, "left_move", add("left")), (DirectionalMover, "right_move", add("right")),
                      (DirectionalMover, "up_move", add("up")), (DirectionalMover, "down_move", add("down")),
                      (DirectionalMover, "left_right_move_dist", two("left", "right")),
                      (DirectionalMover, "up_down_move_dist", two("up", "down"))):
        mod.ctmrg(net, cfg)
    cx, cy, ns = int(nx), int(ny), int(steps)
    for k in KEYS:
        seq = [i for d, i in log if d == k]
        n = cx if k in ("left", "right") else cy
        w.require(len(seq) == ns * n, f"every line is absorbed once per sweep ({k})")
        # a symbolic line index: the number of absorptions of that line
        c = w.integer("line_" + k, 0, n - 1)
        w.require(util.occurrences(c, seq) == ns, f"every line is absorbed once per sweep ({k})")
        step = 1 if k in ("left", "down") else n - 1
        for a, b in zip(seq, seq[1:]):
            w.require((a + step) % n == b, f"successive absorptions advance by one line ({k})")


HARNESSES = [Harness("sweep", sweep, [dict(nmax=7, smax=3, dist=d) for d in (False, True)],
                     [dict(nmax=9, smax=4, dist=d) for d in (False, True)],
                     "2 <= nx, ny <= 7 (9), sweeps <= 3 (4)", max_paths=40000)]
