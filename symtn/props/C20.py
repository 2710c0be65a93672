"""Gauge fixing: mutually inverse matrices on norm tensor and pair; undone exactly after the update."""
import torch
from torch import einsum, conj
from ..harness import Harness
from . import util


def gauge(w, nD, m, p, real=False):
    from acetn.evolution import full_update as fu
    w.dtype = torch.float64 if real else torch.complex128
    nz = w.tensor("Z", nD, nD, m)          # square root of the norm tensor: (y, x, column)
    a = w.tensor("T", nD, nD, p, p)
    n0, a0 = nz.clone(), a.clone()
    w.clear_records()
    n12, ag, xi, yi = fu.gauge_fix(nz, a)
    recs = [r for r in w.records if r["op"] == "qr"]
    w.require(len(recs) == 2, "one QR decomposition per side")
    w.equal(w.reduce(einsum("ay,bx,yxpq->abpq", yi, xi, ag)), a0, "undoing the gauge returns the pair")
    new = einsum("yxz,ya,xb->abz", n0, yi, xi)
    w.equal(n12, einsum("abz,ABz->abAB", new, conj(new)), "the norm tensor is transformed by the inverse gauge")
    # the gauge is the triangular factor of the square root seen from each side
    gy = einsum("yxz,Yxz->Yy", n0, conj(n0))
    gx = einsum("yxz,yXz->Xx", n0, conj(n0))
    def sides(my, mx):
        w.equal(my.mH @ my, gy, "gauge of the first side from the norm tensor traced over the second")
        w.equal(mx.mH @ mx, gx, "gauge of the second side from the norm tensor traced over the first")
    m = [r["args"][0] for r in recs]
    util.either(lambda: sides(m[0], m[1]), lambda: sides(m[1], m[0]))


def cycle(w, nD, m, D, p, use=True, real=False):
    """preconditioning followed by finalisation: the cost of every candidate is unchanged"""
    from acetn.evolution import full_update as fu
    w.dtype = torch.float64 if real else torch.complex128
    up = util.full_updater(w, use_gauge_fix=use)
    nz = w.tensor("Z", nD, nD, m)
    a = w.tensor("T", nD, nD, p, p)
    N = w.tensor("N", nD, nD, nD, nD)
    a0, N0 = a.clone(), N.clone()
    x1, x2 = w.tensor("X1", nD, D, p), w.tensor("X2", nD, D, p)
    got = []

    def approx(n, *args, **kw):
        got.append(n)
        return nz
    with util.patched((fu, "positive_approx", approx)):
        n12, ag = up.precondition_norm_tensor(N, a)
    w.require(len(got) == 1, "the norm tensor is made positive once")
    w.equal(got[0], N0, "the bond's norm tensor is made positive")
    w.clear_records()
    f1, f2 = up.finalize_reduced_tensors(x1, x2)
    recs = [r for r in w.records if r["op"] == "qr"]
    w.require(len(recs) == 2, "both reduced tensors are balanced")
    views = [[einsum(f"{l}->yup", r["args"][0].reshape(*d)) for l, d in (("ypu", (nD, p, D)), ("pyu", (p, nD, D)))] for r in recs]
    # u1, u2: the candidate with the gauge undone. Its cost in the old metric equals the candidate's in the new one
    util.either(*[lambda u1=u1, u2=u2: costs(w, nz, a0, n12, ag, x1, x2, u1, u2, m, real and w.symbolic and use)
                  for i in range(2) for v in range(2) for u1, u2 in [(views[i][v], views[1 - i][v])]])


def costs(w, nz, a0, n12, ag, x1, x2, u1, u2, m, short):
    o = einsum("yxz,yup,xuq->zpq", nz, u1, u2)
    want = einsum("zpq,ZPQ,zZ->pqPQ", o, conj(o), torch.eye(m, dtype=w.dtype))
    c = einsum("yup,xuq->yxpq", x1, x2)
    w.equal(einsum("yxYX,yxpq,YXPQ->pqPQ", n12, c, conj(c)), want, "norm of a candidate is the same with and without gauge")
    if short:
        return      # the conjugate inverse is the inverse itself: decided in the complex instance and by `gauge`
    mix = einsum("yxz,yxpq->zpq", nz, a0)
    want = einsum("zpq,ZPQ,zZ->pqPQ", mix, conj(o), torch.eye(m, dtype=w.dtype))
    w.equal(w.reduce(einsum("yxYX,yxpq,YXPQ->pqPQ", n12, ag, conj(c))), want, "overlap with the target is the same with and without gauge")


G = [dict(nD=2, m=4, p=2), dict(nD=2, m=4, p=2, real=True), dict(nD=3, m=9, p=1)]
C = [dict(nD=2, m=4, D=2, p=2, use=u, real=r) for u in (True, False) for r in (True, False)]
HARNESSES = [Harness("gauge", gauge, G + [dict(nD=3, m=9, p=2), dict(nD=4, m=16, p=2)], None,
                     "reduced dimension <= 4; square roots of full rank on both sides"),
             Harness("cycle", cycle, C + [dict(nD=3, m=9, D=2, p=2, use=u) for u in (True, False)], None, "reduced dimension 2 and 3")]
ASSUMPTIONS = ["the triangular factors are invertible (the pseudo-inverse equals the inverse)"]
