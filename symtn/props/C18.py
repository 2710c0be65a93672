"""The norm tensor of the full update is the exact environment of the bond."""
import torch
from torch import einsum, conj
from ..harness import Harness
from . import util


def norm(w, k, chi, D, n, variant="bond", real=False):
    from acetn.evolution import full_update as fu
    from acetn.ipeps.bond import Bond
    net = util.network(w, 2, 2, chi, D, 2, real=real)
    s1 = (1, 0)
    s2 = util.neighbour(s1, k, 2, 2)
    q1, q2 = w.tensor("q1", D, D, D, n), w.tensor("q2", D, D, D, n)
    ops, sub, _, _ = util.bond_ring(net, s1, s2, k)
    # the isometric parts carry their outward legs as (k+2, k+3, k+1) and (k+3, k, k+1)
    ops = ops + [q1, conj(q1), q2, conj(q2)]
    sub = sub + ["mnlx", "MNLX", "oqry", "OQRY"]
    want = einsum(",".join(sub) + "->xyXY", *ops)
    if variant == "bond":
        got = fu.build_norm_tensor(net, Bond(s1, s2, k), q1, q2)
    else:
        m = lambda x: x % 4
        t1, t2 = net[s1], net[s2]
        env1 = (t1["C"][m(k + 1)], t1["E"][m(k + 1)], t1["E"][k], t1["C"][m(k + 2)], t1["E"][m(k + 2)], q1)
        env2 = (t2["C"][k], t2["E"][k], t2["E"][m(k + 3)], t2["C"][m(k + 3)], t2["E"][m(k + 2)], q2)
        got = fu.build_norm_tensor_core_blocked(*env1, *env2)
    w.equal(got, want, "norm tensor = ring of ten boundary tensors with both isometric parts")


Q1 = [dict(k=k, chi=2, D=2, n=3) for k in range(4)] + [dict(k=1, chi=3, D=2, n=2, real=True)]
B1 = [dict(k=2, chi=1, D=1, n=9, variant="blocked"), dict(k=1, chi=2, D=1, n=10, variant="blocked")]
HARNESSES = [Harness("norm", norm, Q1 + B1 + [dict(k=k, chi=c, D=D, n=n) for k in range(4) for c, D, n in ((3, 3, 4), (5, 2, 4), (1, 1, 1), (1, 2, 4), (9, 3, 6))] + [dict(k=0, chi=2, D=2, n=10, variant="blocked")], None,
                     "chi <= 9, D <= 3, reduced dimension <= 10; generic isometric parts")]
