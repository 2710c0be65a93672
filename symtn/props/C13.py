"""CTMRG projectors resolve the identity on the renormalised bond, truncated at the requested rank."""
import itertools
import torch
from torch import einsum, conj
from ..harness import ConcWorld, Harness
from . import util


def quarter(t, k):
    """corner k of the ring with its two edges and the double-layer site: rows (next edge), columns (previous edge)"""
    n = lambda m: m % 4
    legs = ["", "", "", ""]
    legs[k], legs[n(k + 1)], legs[n(k + 2)], legs[n(k + 3)] = "l", "u", "r", "d"
    a = "".join(legs)
    return einsum(f"ab,bcuU,ealL,{a}p,{a.upper()}p->crRedD", t["C"][k], t["E"][k], t["E"][n(k + 3)], t["A"], conj(t["A"]))


def projectors(w, kind, svd, chi, D, p, k, ov=2, niter=1, cutoff=1e-12, chi_env=None, real=False, ring=None, edge=None):
    from acetn.renormalization.projectors import ProjectorCalculator
    net = util.network(w, 2, 2, chi_env or chi, D, p, real=real)
    net.dims["chi"] = chi
    cfg = util.Obj(projectors=kind, svd_type=svd, svd_cutoff=cutoff, rsvd_niter=niter, rsvd_oversampling=ov)
    sites = [(0, 0), (1, 0), (1, 1), (0, 1)]
    if ring:
        # boundary dimensions differ from place to place, as after truncations at different ranks
        (a, b, c, e), f = ring[:4], ring[4:]
        ends = [(e, f[0]), (f[0], b), (c, f[1]), (f[1], e)]        # outer dimensions of the quarters: previous, next
        for i, (s, (prev, nxt)) in enumerate(zip(sites, ends)):
            j = (k + i) % 4
            net[s]["C"][j] = w.tensor(f"rC{i}", a + i % 2, b + i // 2)
            net[s]["E"][j] = w.tensor(f"rE{i}", b + i // 2, nxt, D, D)
            net[s]["E"][(j + 3) % 4] = w.tensor(f"rF{i}", prev, a + i % 2, D, D)
    Q = [quarter(net[s], (k + i) % 4) for i, s in enumerate(sites)]
    mat = lambda q: q.reshape(q.shape[0] * q.shape[1] * q.shape[2], -1)
    q1D, q4D = tuple(Q[0].shape), tuple(Q[3].shape)
    w.clear_records()
    if edge:
        # a cutoff inside the spectrum: the solver chooses the spectrum around it, a concrete run puts it between two values
        cfg.svd_cutoff = cutoff = 0.5
        if isinstance(w, ConcWorld):
            state = torch.random.get_rng_state()
            ProjectorCalculator(cfg).calculate(net, sites, k)
            S = [r for r in w.records if r["op"] == "svd"][0]["outs"][1]
            cfg.svd_cutoff = cutoff = float((S[edge - 1] * S[edge]).sqrt() / S[0])
            torch.random.set_rng_state(state)
        w.clear_records()
    p1, p2 = ProjectorCalculator(cfg).calculate(net, sites, k)
    svds = [r for r in w.records if r["op"] == "svd"]
    w.require(len(svds) == 1, "one singular value decomposition decides the projector")
    r = svds[0]
    U, S, Vh = r["outs"]
    n = p1.shape[-1]
    kept = (S / S[0] > cutoff).sum()
    kept = int(kept.item()) if isinstance(kept, torch.Tensor) else int(kept)
    w.require(n == min(chi, kept), "rank kept = min(chi, number of singular values above the cutoff)")
    w.require(tuple(p1.shape) == q1D[3:] + (n,) and tuple(p2.shape) == q4D[:3] + (n,), "projector legs")
    P1, P2 = p1.reshape(-1, n), p2.reshape(-1, n)
    m1, m2, m3, m4 = [mat(q) for q in Q]
    if kind == "half-system":
        left, right = m1, m4
    else:
        left, right = m2 @ m1, m4 @ m3
    q = U.shape[0]
    B = r["args"][0]
    half = 1. / torch.sqrt(S[:n])
    want = (U[:, :n] * half).mH @ B @ (Vh.mH[:, :n] * half)
    # by the contract of the decomposition `want` is the identity
    w.proportional(P1.mT @ P2, want, "projectors resolve the identity of the truncated bond")
    iso = w.records_before_svd_q() if svd == "rsvd" else None
    Uf = U[:, :n] if iso is None else (iso @ U)[:, :n]
    w.proportional(P1, left.mT @ conj(Uf * half), "first projector is the half system times the leading left vectors")
    w.proportional(P2, right @ (Vh.mH[:, :n] * half), "second projector is the half system times the leading right vectors")


FOUR = list(itertools.product(("half-system", "full-system"), ("rsvd", "full-rank")))
R = (1, 2, 3, 3, 2, 1)
Q = [dict(kind=a, svd=b, chi=2, D=2, p=2, k=0, ov=0 if b == "rsvd" else 2) for a, b in FOUR] + \
    [dict(kind=a, svd=b, chi=2, D=2, p=2, k=k, ring=R) for (a, b), k in zip(FOUR, (1, 2, 3, 0))]
T = Q + [dict(kind=a, svd=b, chi=2, D=2, p=2, k=k, ov=2, ring=R, real=r) for a, b in FOUR for k in range(4) for r in (False, True)]
T = T + [dict(kind=a, svd=b, chi=c, D=D, p=p, k=(i + c) % 4, ov=2) for i, (a, b) in enumerate(FOUR) for c, D, p in ((1, 1, 2), (1, 2, 2), (3, 2, 2), (5, 2, 3), (2, 3, 2))]
T = T + [dict(kind=a, svd=b, chi=4, D=2, p=2, k=(i + e) % 4, edge=e, ov=6) for i, (a, b) in enumerate(FOUR) for e in (1, 2)]
X = [dict(kind=a, svd=b, chi=c, D=D, p=p, k=k, ov=o, chi_env=e) for a, b in FOUR for k in range(4) for c, D, p, o, e in ((4, 2, 2, 1, 2), (3, 3, 2, 3, 4))]
HARNESSES = [Harness("projectors", projectors, T, T + X)]
