"""Balancing after an update: the pair is preserved, its weight split evenly, both site tensors normalised."""
import torch
from torch import einsum, conj
from ..harness import Harness
from . import util


def balance(w, nD, D, p, real=False):
    w.dtype = torch.float64 if real else torch.complex128
    up = util.full_updater(w, use_gauge_fix=False)
    x1, x2 = w.tensor("X1", nD, D, p), w.tensor("X2", nD, D, p)
    o1, o2 = x1.clone(), x2.clone()
    f1, f2 = up.finalize_reduced_tensors(x1, x2)
    w.require(tuple(f1.shape) == (nD, D, p) and tuple(f2.shape) == (nD, D, p), "the bond dimension is kept")
    w.equal(x1, o1, "the optimised tensors are not modified")
    w.equal(x2, o2, "the optimised tensors are not modified")
    w.proportional(w.reduce(util.pair(f1, f2)), util.pair(o1, o2), "the pair is the optimised one up to a positive factor")
    if real and w.symbolic:
        return            # same code; the isometry rules need a complex dtype, the real one is checked on the real kernels
    g1 = w.reduce(einsum("yup,yvp->uv", conj(f1), f1))
    g2 = w.reduce(einsum("yup,yvp->uv", conj(f2), f2))
    w.equal(g1, g2, "both tensors carry the same weights on the shared leg")
    w.equal(g1, torch.diag_embed(torch.diagonal(g1)), "the shared leg is in the basis of the pair's singular vectors")


def update(w, D, p, use):
    """a whole bond update around the optimisation: cores, norm tensor, gate, balancing, recomposition, normalisation"""
    from acetn.evolution import full_update as fu
    from acetn.evolution.als_solver import ALSSolver
    nD = min(D ** 3, D * p)
    w.dtype = torch.complex128
    asked = []

    class Gates:
        wrap_one_site = True

        def __getitem__(self, b):
            asked.append(b)
            return G
    G = w.tensor("G", p, p, p, p)
    up = util.full_updater(w, D, p, gate=Gates(), use_gauge_fix=use)
    a1, a2 = w.tensor("A1", D, D, D, D, p), w.tensor("A2", D, D, D, D, p)
    N = w.tensor("N", nD, nD, nD, nD)
    nz = w.tensor("Z", nD, nD, nD * nD)
    y1, y2 = w.tensor("Y1", nD, D, p), w.tensor("Y2", nD, D, p)
    seen, norm, ap = [], [], []

    class Solver:
        def __init__(self, n12, a12g, shape, config):
            seen.append((n12, a12g, tuple(shape), config))

        def solve(self):
            return y1, y2

    def build(ipeps, bond, q1, q2):
        norm.append((ipeps, bond, q1, q2))
        return N

    def approx(n, *a, **k):
        ap.append((n, a, k))
        return nz
    w.clear_records()
    with util.patched((fu, "positive_approx", approx), (fu, "build_norm_tensor", build),
                      *util.patch_everywhere("ALSSolver", ALSSolver, Solver)):
        b1, b2 = up.tensor_update(a1, a2, "bond")
    w.require(asked == ["bond"], "the bond's own gate is used once")
    w.require(len(seen) == len(norm) == len(ap) == 1, "one norm tensor and one optimisation per update")
    ip, bd, q1, q2 = norm[0]
    w.require(ip is up.ipeps and bd == "bond", "the norm tensor of this bond")
    w.equal(ap[0][0], N, "the bond's norm tensor is made positive")
    w.require(seen[0][2] == (nD, D, p), "the bond dimension is kept")
    t = util.pair(y1, y2)
    ts = [t]
    if use:
        pin = [r for r in w.records if r["op"] == "pinv"]
        w.require(len(pin) == 2, "two gauge inverses")
        i = [r["outs"][0] for r in pin]
        ts = [einsum("ay,ypxq,bx->apbq", x, t, y) for x, y in ((i[0], i[1]), (i[1], i[0]))]
    w.unit_norm(b1, "the first site tensor is normalised")
    w.unit_norm(b2, "the second site tensor is normalised")
    got = einsum("xurdp,LUxDq->rdupDLUq", b1, b2)
    got = w.reduce(got)
    util.either(*[lambda t=t: w.proportional(got, einsum("rduy,ypxq,DLUx->rdupDLUq", q1, t, q2),
                                             "the new pair is the optimised one between the old isometries") for t in ts])


B = [dict(nD=n, D=D, p=p, real=r) for n, D, p in ((2, 2, 2), (1, 1, 2), (4, 2, 2), (3, 2, 1)) for r in (False, True)]
HARNESSES = [Harness("balance", balance, B + [dict(nD=n, D=D, p=p) for n, D, p in ((6, 3, 2), (4, 2, 3), (9, 3, 3), (1, 1, 2), (1, 1, 3))], None,
                     "reduced dimension <= 9, bond dimension <= 3", seeds=3),
             Harness("update", update, [dict(D=D, p=p, use=u) for D in (2, 3) for p in (1, 2) for u in (True, False)], None,
                     "D = 2 and 3, p <= 2")]
ASSUMPTIONS = ["generic pairs: all singular values are positive"]
