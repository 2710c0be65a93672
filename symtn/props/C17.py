"""Bond updates act on the bond's own legs and physical indices only; splitting and joining site tensors is exact."""
import torch
from torch import einsum
from ..harness import Harness
from . import util


def leg(k, letter, rest="lurd"):
    """subscript of a site tensor whose leg k carries `letter`"""
    s = list(rest)
    s[k] = letter
    return "".join(s)


def update(w, k, D, p, real):
    from acetn.evolution.tensor_update import TensorUpdater
    from acetn.ipeps.bond import Bond
    nx = ny = 2
    net = util.network(w, nx, ny, 2, D, p, real=real)
    s1 = (0, 1)
    s2 = util.neighbour(s1, k, nx, ny)
    bond = Bond(s1, s2, k)
    X1, X2 = w.tensor("X1", D, D), w.tensor("X2", D, D)
    G1, G2 = w.tensor("G1", p, p), w.tensor("G2", p, p)

    class Local(TensorUpdater):
        def tensor_update(self, a1, a2, bond):
            a1q, a1r, a2q, a2r = self.decompose_site_tensors(a1, a2)
            n = min(D ** 3, D * p)
            w.require(tuple(a1r.shape) == (n, D, p) and tuple(a2r.shape) == (n, D, p), "reduced tensors carry (rest, bond, phys)")
            a1r = einsum("xlp,lm,pq->xmq", a1r, X1, G1)
            a2r = einsum("xlp,lm,pq->xmq", a2r, X2, G2)
            return self.recompose_site_tensors(a1q, a1r, a2q, a2r)

    before = util.snapshot(net)
    u = Local(net, util.Obj(wrap_one_site=True))
    out = u.update(bond)
    a1, a2 = out[0], out[1]
    k2 = (k + 2) % 4
    w1 = einsum(f"{leg(k, 'x')}p,xy,pq->{leg(k, 'y')}q", before[s1]["A"], X1, G1)
    w2 = einsum(f"{leg(k2, 'x')}p,xy,pq->{leg(k2, 'y')}q", before[s2]["A"], X2, G2)
    w.equal(w.reduce(a1), w1, "the first site is changed on its bond leg and physical index only")
    w.equal(w.reduce(a2), w2, "the second site is changed on its bond leg and physical index only")
    util.check_env(w, net, before, {}, "computing an update")


Q = [dict(k=k, D=D, p=p, real=r) for k in range(4) for D, p, r in ((2, 2, False), (2, 2, True), (2, 5, False), (1, 2, False))]
HARNESSES = [Harness("update", update, Q + [dict(k=k, D=D, p=p, real=r) for k in range(4) for D, p in ((3, 2), (3, 4), (2, 3), (2, 4), (4, 2))
                                              for r in (True, False)], None,
                     "bond dimensions 1-4, physical dimensions 2-5, all four orientations")]
