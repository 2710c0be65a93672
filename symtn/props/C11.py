"""A directional move absorbs one column or row into the neighbouring boundary and nothing else."""
from ..harness import Harness
from . import util


def move(w, k, i, nx, ny, chi, D, p, z):
    from acetn.renormalization.directional_mover import DirectionalMover
    net = util.network(w, nx, ny, chi, D, p)
    st = util.Projectors(w, net, z if z else (lambda key: 2 + (sum(key[0][0]) + key[1]) % 2))
    before = util.snapshot(net)
    with st.patch():
        mover = DirectionalMover(net.config.ctmrg)
        getattr(mover, util.MOVES[k])(net, i)
    line = util.line_of(k, i, nx, ny)
    want = [(tuple(util.plaquette(s, k, nx, ny)), k) for s in line]
    w.require(set(st.calls) == set(want), "projectors come from the plaquettes of the absorbed line")
    ch = util.spec_move(before, k, line, nx, ny, lambda s: st.make(util.plaquette(s, k, nx, ny), k))
    util.check_env(w, net, before, ch, f"{util.MOVES[k]}")


Q = [dict(k=k, i=i, nx=nx, ny=ny, chi=2, D=2, p=2, z=z) for k in range(4)
     for (nx, ny, i, z) in ((2, 2, 0, 3), (2, 2, 1, 2), (3, 2, 1, 0), (2, 3, 0, 0))]
T = Q + [dict(k=k, i=i, nx=nx, ny=ny, chi=3, D=3, p=2, z=z) for k in range(4) for nx in (2, 3, 4) for ny in (2, 3, 4)
         for i in range(nx if k % 2 == 0 else ny) for z in (0, 3)]
X = [dict(k=k, i=i, nx=nx, ny=ny, chi=c, D=D, p=p, z=z) for k in range(4) for nx, ny in ((2, 3), (5, 2), (2, 5)) for i in range(nx if k % 2 == 0 else ny)
     for c, D, p, z in ((5, 2, 3, 4), (1, 1, 2, 1), (4, 4, 2, 3))]
T = T + X[::7]
HARNESSES = [Harness("move", move, T, T + X, "all four directions; unit cells up to 4x4; generic projectors")]
ASSUMPTIONS = ["projectors are generic tensors (their construction is C13)"]
