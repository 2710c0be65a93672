"""Two-site reduced density matrix."""
from ..harness import Harness
from . import util


def bond_rdm(w, chi, D, p, site, k, nx=2, ny=2):
    from acetn.measurement.rdm import RDM
    from acetn.ipeps.bond import Bond
    net = util.network(w, nx, ny, chi, D, p)
    s1 = tuple(site)
    s2 = util.neighbour(s1, k, nx, ny)
    rdm = RDM(net)[Bond(s1, s2, k)]
    w.equal(rdm, util.spec_bond_rdm(net, s1, s2, k), "two-site RDM equals the environment contraction")


def all_bonds(w, chi, D, p, nx, ny):
    """the bonds the network itself lists"""
    from acetn.measurement.rdm import RDM
    net = util.network(w, nx, ny, chi, D, p)
    for b in net.bond_list:
        w.equal(RDM(net)[b], util.spec_bond_rdm(net, b.s1, b.s2, b.k), f"two-site RDM of a listed bond ({b.k})")


Q = [dict(chi=3, D=2, p=2, site=[0, 0], k=k) for k in range(4)] + [dict(chi=5, D=3, p=3, site=[1, 0], k=k) for k in (0, 1)]
T = [dict(chi=c, D=D, p=p, site=s, k=k) for (c, D, p) in ((2, 2, 2), (4, 3, 2), (6, 2, 4), (3, 4, 3)) for s in ([0, 0], [1, 1], [0, 1]) for k in range(4)]
HARNESSES = [Harness("bond_rdm", bond_rdm, Q + T, None, "chi<=6, D<=4, p<=4, four directions"),
             Harness("all_bonds", all_bonds, [dict(chi=3, D=2, p=2, nx=nx, ny=ny) for nx in (2, 3) for ny in (2, 3)],
                     None, "every bond of the unit cell")]
