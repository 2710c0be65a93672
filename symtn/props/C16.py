"""Randomised decompositions are the projection of the exact product onto an orthonormal sampled range."""
import torch
from ..harness import Harness
from . import util


def rsvd(w, kind, m, k, n, q, niter, real=False):
    from acetn import linalg
    w.dtype = torch.float64 if real else torch.complex128
    t = w.tensor
    if kind == 1:
        fs = [t("M", m, n)]
        f = linalg.svd_lowrank
    elif kind == 2:
        fs = [t("A", m, k), t("B", k, n)]
        f = linalg.fused_matmul_svd_lowrank
    else:
        fs = [t("A", m, k), t("B", k, k + 1), t("C", k + 1, k), t("D", k, n)]
        f = linalg.fused_3matmul_svd_lowrank
    M = fs[0]
    for x in fs[1:]:
        M = M @ x
    args = [x.clone() for x in fs]
    w.clear_records()
    U, S, V = f(*args, q=q, niter=niter)
    for a, b in zip(args, fs):
        w.equal(a, b, "inputs are not modified")
    r = min(q, m, n)
    w.require(tuple(U.shape) == (m, r) and tuple(S.shape) == (r,) and tuple(V.shape) == (n, r), "shapes (m,q), (q,), (n,q)")
    recs = w.records
    w.require([x["op"] for x in recs].count("svd") == 1, "one small decomposition")
    qs = [x for x in recs if x["op"] == "qr"]
    sv = [x for x in recs if x["op"] == "svd"][0]
    Q = qs[-1]["outs"][0]
    Ub, Sb, Vh = sv["outs"]
    w.proportional(sv["args"][0], Q.mH @ M, "the decomposed matrix is the product projected onto the sampled range")
    w.equal(S, Sb, "singular values")
    w.equal(U, Q @ Ub, "U = Q U_B")
    w.equal(V, Vh.mH, "V belongs to the right side (M = U S V^H)")
    w.proportional((U * S) @ V.mH, Q @ (Ub * Sb) @ Vh, "U S V^H = Q Q^H M by the contract of the small decomposition")
    # every orthonormalised sample spans the product (or its adjoint) applied to the previous one
    MH = M.mH
    prev = None
    for i, x in enumerate(qs):
        a = x["args"][0]
        if prev is None:
            w.require(a.shape[0] == m and a.shape[1] == r, "the sample starts in the row space")
        else:
            w.one_of(a, [MH @ prev, M @ (MH @ prev)] if prev.shape[0] == m else [M @ prev], "power iteration applies M or its adjoint")
        prev = x["outs"][0]
    if len(qs) > 1:
        p = qs[-2]["outs"][0]
        w.one_of(qs[-1]["args"][0], [M @ (MH @ p)] if p.shape[0] == m else [M @ p], "the last sample lies in the range of the product")
    else:
        w.require(niter == 0, "the requested number of power iterations is performed")
        om = [x for x in w.randoms if tuple(x.shape) == (n, r)]
        w.require(len(om) == 1, "one random test matrix")
        w.proportional(qs[-1]["args"][0], M @ om[0], "the sample is the product applied to a random matrix")
    passes = sum(1 for x, y in zip(qs[1:], qs[:-1]) if x["args"][0].shape[0] == m)
    w.require(passes == niter, "the requested number of power iterations is performed")


Q = [dict(kind=k, m=4, k=3, n=5, q=q, niter=it, real=re) for k in (1, 2, 3) for q, it, re in
     ((2, 0, False), (3, 1, False), (9, 2, False), (2, 2, True), (9, 0, False), (9, 1, True))]
T = Q + [dict(kind=k, m=m, k=4, n=n, q=q, niter=it, real=re) for k in (1, 2, 3) for m, n in ((3, 7), (8, 5), (6, 7))
         for q in (1, 4, 12) for it in (0, 1, 2, 3, 4) for re in (True, False)]
HARNESSES = [Harness("rsvd", rsvd, T, T + [dict(kind=k, m=m, k=5, n=n, q=q, niter=it, real=re) for k in (1, 2, 3) for m, n in ((12, 9), (1, 5), (9, 1)) for q in (1, 6, 20) for it in (0, 3, 7) for re in (True, False)], "matrices up to 8x8 (12x9), q <= 12 (20), up to 4 power iterations")]
