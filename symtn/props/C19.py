"""Positive approximation of the norm tensor: same eigenvectors, uniformly shifted eigenvalues, all above the cutoff."""
import torch
from torch import einsum, conj
from ..harness import Harness
from . import util

SPECTRA = ([1., 2., 3., 4.], [-0.5, 0.1, 0.2, 1.], [3e-7, 1., 2., 3.], [-2., -1., -0.5, 0.3], [-2e-7, 0.4, 0.5, 3.])


def norm_tensor(w, nD, real):
    """a Hermitian norm tensor: generic symbolic; with spectra of every kind in the concrete runs"""
    N = w.tensor("N", nD, nD, nD, nD)
    if not w.symbolic:
        M = N.reshape(nD ** 2, nD ** 2)
        _, z = torch.linalg.eigh(M + M.mH)
        sp = SPECTRA[(w.seed - 1) % len(SPECTRA)]
        ev = torch.tensor((sp * nD ** 2)[:nD ** 2], dtype=M.dtype)
        N = ((z * ev) @ z.mH).reshape(nD, nD, nD, nD)
    return N


def positive(w, nD, cutoff, real=False, fail=False):
    from acetn.evolution.full_update import positive_approx
    w.dtype = torch.float64 if real else torch.complex128
    N = norm_tensor(w, nD, real)
    N0 = N.clone()
    n = [0]

    def inject(op):
        if op != "eigh":
            return False
        n[0] += 1
        w.assume(n[0] <= 3)
        return fail and w.flip(f"eigh fails {n[0]}")
    w.clear_records()
    w.inject_failures(inject)
    nz = positive_approx(N, cutoff=cutoff)
    w.inject_failures(None)
    recs = [r for r in w.records if not r["failed"] and r["op"] in ("eigh", "svd")]
    w.require(len(recs) > 0, "the norm tensor is decomposed")
    first, last = recs[0], recs[-1]
    w.equal(first["args"][0], N0.reshape(nD ** 2, nD ** 2), "the norm tensor itself is decomposed first")

    def spectrum(r):
        if r["op"] == "eigh":
            return r["outs"][0], r["outs"][1]
        return torch.flip(r["outs"][1], dims=[-1]), torch.flip(r["outs"][0], dims=[-1])
    ew, ez = spectrum(last)
    w.equal(nz.reshape(nD ** 2, nD ** 2), ez * torch.sqrt(ew), "square root = eigenvectors times root eigenvalues")
    tol = 0 if w.symbolic else 1e-9
    w.require(ew[0] >= cutoff - tol, "no eigenvalue is below the cutoff")
    if all(r["op"] == "eigh" for r in recs):
        w0, z0 = spectrum(first)
        big = w0[0].abs() if bool(w0[0].abs() > cutoff) else cutoff
        if bool(w0[0] >= cutoff):
            w.require(len(recs) == 1, "a positive norm tensor is left alone")
            w.close(ew, w0, "a positive norm tensor keeps its eigenvalues")
        else:
            shift = ew[0] - w0[0]
            w.require(shift <= 2 * big + tol, "the shift is at most twice the offending eigenvalue or cutoff")
            w.close(ew - w0, shift.expand(ew.shape) if isinstance(shift, torch.Tensor) else shift, "all eigenvalues are shifted by the same amount")
    if not w.symbolic and not fail:
        # the real kernels: the result is the shifted norm tensor
        R = einsum("xyz,XYz->xyXY", nz, conj(nz)).reshape(nD ** 2, nD ** 2) - N0.reshape(nD ** 2, nD ** 2)
        w.equal(R + torch.eye(nD ** 2, dtype=R.dtype), torch.eye(nD ** 2, dtype=R.dtype) * (1 + R[0, 0]), "shift of the norm tensor")


HARNESSES = [Harness("positive", positive,
                     [dict(nD=n, cutoff=c, real=r) for n in (1, 2, 3) for c in (1e-12, 1e-6, 0.25, 2.) for r in (False, True)] +
                     [dict(nD=n, cutoff=c, fail=True) for c in (1e-12, 1e-6, 0.25) for n in (2, 3)],
                     [dict(nD=n, cutoff=c, real=r) for n in (1, 2, 3, 4) for c in (1e-12, 1e-8, 1e-6, 1e-3, 0.25, 2.) for r in (False, True)] +
                     [dict(nD=n, cutoff=c, fail=True) for c in (1e-12, 1e-6, 0.25) for n in (2, 3, 4)],
                     "norm tensors up to 9x9 (16x16), symbolic spectra, four (six) cutoffs, at most three decompositions, every pattern of failing ones", seeds=5)]
