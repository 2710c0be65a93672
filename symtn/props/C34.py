"""A product state asked for is the state that is measured."""
import torch
from torch import einsum, conj
from ..harness import Harness
from . import util


def basis_ops(w, p, n):
    """E_ab and i E_ab on n sites: their real expectation values determine the whole density matrix"""
    d = p ** n
    out = {}
    with w.concrete():
        for i in range(d):
            for j in range(d):
                for c, z in (("r", 1.), ("i", 1j)):
                    m = torch.zeros(d, d, dtype=torch.complex128)
                    m[i, j] = z
                    out[f"{i}_{j}{c}"] = m
    return out


def product(w, p, D, chi, nx, ny, what):
    from acetn.ipeps import Ipeps
    w.dtype = torch.complex128
    with w.concrete():
        net = Ipeps(util.cfg(nx, ny, chi, D, p))
        one = torch.zeros(chi, chi, dtype=torch.complex128)
        one[0, 0] = 1.
        edge = torch.zeros(chi, chi, D, D, dtype=torch.complex128)
        edge[0, 0, 0, 0] = 1.
        zero = {n: torch.zeros(p ** n, p ** n, dtype=torch.complex128) for n in (1, 2)}
    states = {s: w.tensor(f"s{s[0]}{s[1]}", p) for s in net.site_list}
    for s in net.site_list:
        net[s].initialize_site_tensor([states[s][i] for i in range(p)])
        # the boundary of a product state
        net[s]["C"] = [one] * 4
        net[s]["E"] = [edge] * 4
    n = 1 if what == "site" else 2
    ops = basis_ops(w, p, n)
    keys = net.site_list if what == "site" else net.bond_list
    target = w.choose(what, keys)
    ket = lambda s: states[s]
    if what == "site":
        v = ket(target)
    else:
        v = einsum("p,q->pq", ket(target.s1), ket(target.s2)).reshape(-1)
    given = lambda key: {k: (m if key == target else zero[n]) for k, m in ops.items()}
    model = util.Obj(dim=p, one_site_hamiltonian=lambda s: None, two_site_hamiltonian=lambda b: zero[2],
                     one_site_observables=(lambda s: given(tuple(s))) if what == "site" else (lambda s: {}),
                     two_site_observables=given if what == "bond" else (lambda b: {}))
    out = net.measure(model)
    got = torch.stack([out[k] for k in ops])
    want = torch.stack([einsum("P,Pp,p->", conj(v), m, v).real for m in ops.values()])
    w.proportional(got, want, f"expectation values of the requested product state ({what})")


Q = [dict(p=2, D=1, chi=1, nx=2, ny=2, what="site"), dict(p=2, D=1, chi=1, nx=2, ny=2, what="bond"), dict(p=3, D=2, chi=2, nx=2, ny=2, what="site"),
     dict(p=2, D=2, chi=2, nx=3, ny=2, what="bond")]
T = Q + [dict(p=3, D=2, chi=2, nx=2, ny=2, what="bond"), dict(p=4, D=1, chi=1, nx=3, ny=2, what="site")]
HARNESSES = [Harness("product", product, Q, T, "cells up to 3x2, D <= 2, p <= 3 (4); generic complex states; every matrix element of the density matrix")]
