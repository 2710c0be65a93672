"""Measured energies and observables are averages of normalised expectation values."""
import torch
from torch import einsum
from ..harness import Harness
from . import util


def measure(w, chi, D, p, nx, ny, one_h, two_o, real, wrap, one_o=True):
    from acetn.measurement.rdm import RDM
    net = util.network(w, nx, ny, chi, D, p, real=real)
    t = lambda name, n: w.tensor(name, n, n)
    ns, nb = len(net.site_list), len(net.bond_list)
    H1 = {s: t(f"h{s[0]}{s[1]}", p) for s in net.site_list}
    O1 = {nm: {s: t(f"{nm}{s[0]}{s[1]}", p) for s in net.site_list} for nm in (("sa", "sb") if one_o else ())}
    H2 = {b: t(f"H{i}", p * p) for i, b in enumerate(net.bond_list)}
    O2 = {nm: {b: t(f"{nm}{i}", p * p) for i, b in enumerate(net.bond_list)} for nm in ("ba",)}
    some = lambda s: one_h == "all" or (one_h == "some" and (s[0] + s[1]) % 2 == 0)
    box = (lambda m: util.Obj(mat=m)) if wrap else (lambda m: m)
    model = util.Obj(dim=p,
                     one_site_hamiltonian=lambda s: box(H1[tuple(s)]) if some(s) else None,
                     two_site_hamiltonian=lambda b: box(H2[b]),
                     one_site_observables=lambda s: {k: box(v[tuple(s)]) for k, v in O1.items()},
                     two_site_observables=lambda b: {k: box(v[b]) for k, v in O2.items()} if two_o else {})
    out = net.measure(model)
    rdm = RDM(net)
    e = 0

    def ev1(s, op):
        r = rdm[s]
        return einsum("Pp,pP->", r, op).real / einsum("pp->", r).real

    def ev2(b, op):
        r = rdm[b]
        return einsum("PQpq,pqPQ->", r, op.reshape(p, p, p, p)).real / einsum("pqpq->", r).real
    for s in net.site_list:
        if some(s):
            e = e + ev1(s, H1[s])
    for b in net.bond_list:
        e = e + ev2(b, H2[b])
    w.equal(out["Energy"], e / ns, "energy per site = (all site terms + all bond terms) / number of sites", dtype=False)
    for nm in O1:
        w.equal(out[nm], sum(ev1(s, O1[nm][s]) for s in net.site_list) / ns, "one-site observable = site average", dtype=False)
    if two_o:
        for nm in O2:
            w.equal(out[nm], sum(ev2(b, O2[nm][b]) for b in net.bond_list) / nb, "two-site observable = bond average", dtype=False)
    w.require(set(out) == {"Energy", *O1} | (set(O2) if two_o else set()), "exactly the model's observables are reported")


Q = [dict(chi=2, D=2, p=2, nx=2, ny=2, one_h="all", two_o=True, real=False, wrap=False),
     dict(chi=2, D=2, p=2, nx=3, ny=2, one_h="some", two_o=False, real=True, wrap=True)] + \
    [dict(chi=2, D=2, p=2, nx=2, ny=2, one_h=h, two_o=t, real=False, wrap=True, one_o=False) for h in ("all", "some") for t in (True, False)]
T = Q + [dict(chi=3, D=2, p=3, nx=nx, ny=ny, one_h=o, two_o=True, real=r, wrap=True)
                                                for nx, ny in ((2, 2), (2, 3)) for o in ("all", "some", "none") for r in (True, False)]
HARNESSES = [Harness("measure", measure, T, T + [dict(chi=4, D=3, p=2, nx=nx, ny=ny, one_h="some", two_o=True, real=False, wrap=True) for nx, ny in ((3, 3), (4, 2))],
                     "unit cells up to 3x2 (3x3, 4x2), chi <= 3 (4), D = 2 (3), p <= 3; generic operators")]
