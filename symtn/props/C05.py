"""Trotter gates: the exponents add up to -dtau times the model's Hamiltonian; each gate is the exponential of its exponent."""
import torch
from torch import einsum
from ..harness import Harness
from . import util


def box(w, m, kind):
    from acetn.model.pauli_matrix import PauliMatrix
    return m if kind == "tensor" else PauliMatrix("X" if m.shape[0] == 2 else "XX", m.dtype, torch.device("cpu"), mat=m)


def build(w, nx, ny, p, kind, who, real, uniform=False):
    """a model whose terms are all generic, and the gates built for it. who: which sites have a one-site term"""
    from acetn.evolution.gate import Gate
    from acetn.model.model import Model
    net = util.network(w, nx, ny, 2, 1, p, real=real)
    H2 = {b: w.tensor(f"H{i}", p * p, p * p) for i, b in enumerate(net.bond_list)}
    H1 = {s: w.tensor(f"h{s[0]}{s[1]}", p, p) for s in net.site_list}
    if uniform:          # one cached matrix for all sites and bonds, as a model may keep it
        for d in (H1, H2):
            x = next(iter(d.values()))
            for k in d:
                d[k] = x
    has = {}
    for i, s in enumerate(net.site_list):
        has[s] = {"all": True, "none": False, "some": i % 2 == 0}.get(who)
        if has[s] is None:
            has[s] = w.flip(f"has{s[0]}{s[1]}")

    class M(Model):
        def one_site_hamiltonian(self, site):
            return box(w, H1[tuple(site)], kind) if has[tuple(site)] else None

        def two_site_hamiltonian(self, bond):
            return box(w, H2[bond], kind)
    with w.concrete():
        model = M(net.config.model)
    dtau = w.real("dtau", 0.001, 0.5)
    before = [x.clone() for x in list(H1.values()) + list(H2.values())]
    w.clear_records()
    gate = Gate(model, dtau, net.bond_list, net.site_list)
    return net, model, gate, dtau, H1, H2, has, before


def gates(w, nx, ny, p, kind, who, real=False, uniform=False):
    net, model, gate, dtau, H1, H2, has, before = build(w, nx, ny, p, kind, who, real, uniform)
    recs = [r for r in w.records if r["op"] == "matrix_exp"]
    e1, e2 = torch.eye(p, dtype=w.dtype), torch.eye(p * p, dtype=w.dtype)
    share = {s: 0 for s in net.site_list}
    const, cwant = 0, 0
    less = lambda x: x - einsum("pp->", x) / p * e1
    for b in net.bond_list:
        g = gate[b]
        w.require(tuple(g.shape) == (p, p, p, p), "a gate has one input and one output per site")
        mine = [r for r in recs if tuple(r["args"][0].shape) == (p * p, p * p) and w.holds_equal(r["outs"][0].reshape(p, p, p, p), g)]
        w.require(len(mine) >= 1, "the gate is a matrix exponential")
        x = mine[0]["args"][0]
        rest = (x + dtau * H2[b]).reshape(p, p, p, p)        # what is not the bond's own term: one-site terms of its two ends
        t1, t2 = einsum("pqrq->pr", rest) / p, einsum("pqps->qs", rest) / p
        tr = einsum("pqpq->", rest) / (p * p)
        one = einsum("pr,qs->pqrs", t1, e1) + einsum("pr,qs->pqrs", e1, t2) - tr * einsum("pr,qs->pqrs", e1, e1)
        w.equal(rest, one, "exponent = bond term + one-site terms of the bond's own sites", allow_zero=True)
        share[b.s1] = share[b.s1] + t1 - tr * e1             # constants may sit on either site: compared in total
        share[b.s2] = share[b.s2] + t2 - tr * e1
        const = const + tr
    for s in net.site_list:
        if not gate.wrap_one_site and has[s]:                # applied separately, after each of the site's four bonds
            mine = [r for r in recs if tuple(r["args"][0].shape) == (p, p) and w.holds_equal(r["outs"][0], gate[s])]
            w.require(len(mine) >= 1, "the one-site gate is a matrix exponential")
            share[s] = share[s] + 4 * mine[0]["args"][0]
            const = const + 4 * einsum("pp->", mine[0]["args"][0]) / p
        want = -dtau * H1[s] if has[s] else torch.zeros(p, p, dtype=w.dtype)
        cwant = cwant + einsum("pp->", want) / p
        w.equal(less(share[s]), less(want), "each one-site term enters the bond gates exactly once", allow_zero=True)
    w.equal(const, cwant, "each one-site term enters the bond gates exactly once (constants)", allow_zero=True)
    for x, y in zip(list(H1.values()) + list(H2.values()), before):
        w.equal(x, y, "the model's matrices are not modified")


def own(w, p):
    """two evolutions with different models keep their own gates"""
    net, model, g1, dt, H1, H2, has, _ = build(w, 2, 2, p, "tensor", "all", False)
    from acetn.evolution.gate import Gate
    old = {b: g1[b].clone() for b in net.bond_list}
    new = Gate(model, w.real("dtau2", 0.001, 0.5), net.bond_list, net.site_list)
    for b in net.bond_list:
        w.equal(g1[b], old[b], "building other gates leaves existing gates alone")


Q = [dict(nx=2, ny=2, p=2, kind=k, who="each") for k in ("tensor", "object")] + \
    [dict(nx=3, ny=2, p=3, kind="tensor", who="some"), dict(nx=2, ny=2, p=2, kind="object", who="all", real=True),
     dict(nx=2, ny=2, p=2, kind="object", who="all", uniform=True), dict(nx=2, ny=2, p=2, kind="tensor", who="none")]
T = Q + [dict(nx=x, ny=y, p=p, kind=k, who=a, real=r, uniform=u) for x, y in ((2, 2), (3, 2), (2, 3), (3, 3), (4, 2))
                                             for p in (2, 3) for k in ("tensor", "object") for a in ("all", "some") for r in (False, True) for u in (False, True)]
HARNESSES = [Harness("gates", gates, T, T + [dict(nx=x, ny=y, p=p, kind=k, who=a) for x, y in ((5, 2), (4, 4)) for p in (2, 4) for k in ("tensor", "object") for a in ("all", "some")],
                     "cells up to 4x2 and 3x3 (4x4), p <= 3 (4), every subset of sites with one-site terms (2x2); generic terms and time step"),
             Harness("own", own, [dict(p=2)], None, "2x2 cell")]
ASSUMPTIONS = ["the matrix exponential of the platform is exact"]
