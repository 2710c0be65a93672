"""One-site reduced density matrix."""
import torch
from ..harness import Harness
from . import util


def one_site(w, chi, D, p, site):
    from acetn.measurement.rdm import RDM
    net = util.network(w, 2, 2, chi, D, p)
    rdm = RDM(net)[tuple(site)]
    s = net[tuple(site)]
    w.equal(rdm, util.spec_site_rdm(s["C"], s["E"], s["A"]), "one-site RDM equals the environment contraction")


HARNESSES = [Harness("one_site", one_site, [dict(chi=3, D=2, p=2, site=[0, 0]), dict(chi=4, D=3, p=2, site=[1, 0]), dict(chi=1, D=1, p=3, site=[0, 1]), dict(chi=2, D=3, p=4, site=[1, 1]), dict(chi=9, D=2, p=5, site=[0, 0]), dict(chi=6, D=4, p=3, site=[1, 0])])]
