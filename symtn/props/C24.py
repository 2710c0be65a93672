"""The compiled extension (csrc, executed with symbolic tensors and numbers) computes what the torch backend computes."""
import contextlib
import sys
import types
import torch
from ..harness import Harness, REPO
from .. import cutensor
from . import util
from .C21 import fixture


@contextlib.contextmanager
def extension(w, workspace=64, failing=()):
    """the compiled module stands where `from acetn.evolution._extensions import _C_cutensor` finds it"""
    import acetn.evolution._extensions as ext
    with w.concrete():
        m = cutensor.module(REPO)
    name = "acetn.evolution._extensions._C_cutensor"
    old = sys.modules.get(name)
    sys.modules[name] = m
    had = getattr(ext, "_C_cutensor", None)
    ext._C_cutensor = m
    try:
        with cutensor.session(w.engine if w.symbolic else None, workspace, failing) as s:
            yield s
    finally:
        if had is None:
            del ext._C_cutensor
        else:
            ext._C_cutensor = had
        sys.modules.pop(name, None)
        if old is not None:
            sys.modules[name] = old


def solve(w, nD, D, p, method, niter, real=False, single=False, fail=(), layout=None, workspace=64, exhausted=(), eps=1e-6):
    """same start, same tensors: the compiled loop returns the torch loop's result on every path"""
    from acetn.evolution.als_solver import ALSSolver
    from acetn.ipeps.ipeps_config import EvolutionConfig
    if single and not w.symbolic:
        w.tol = 1e-2
    with extension(w, workspace, exhausted) as ses:
        if w.symbolic:
            w.engine.name_solutions = True
        N, T, x1, x2 = fixture(w, nD, D, p, real)
        n12g = w.tensor("G", nD, nD, p, p)
        if single:
            N, T, x1, x2, n12g = (x.to(torch.float32 if real else torch.complex64) for x in (N, T, x1, x2, n12g))
        if layout is not None:
            # tensors that are transposed views of memory, as contractions return them
            t = lambda x: x.permute(*range(x.dim() - 1, -1, -1)).contiguous().permute(*range(x.dim() - 1, -1, -1))
            N, T, n12g, x1, x2 = [t(x) if i in layout else x for i, x in enumerate((N, T, n12g, x1, x2))]
        with w.concrete():
            c = EvolutionConfig(disable_progressbar=True, als_method=method, als_niter=niter, als_epsilon=eps)
        # the tolerance is any number, so that stopping and going on are both explored
        tols = [w.real("tol", 0.001, 2.)]
        if not w.symbolic and niter > 2:
            tols += [2. * 0.6 ** i for i in range(40)]      # a differing stop shows for some of these
        args = [x.clone() for x in (N, T, n12g, x1, x2)]
        for tl in tols:
            solvers = []
            for b in ("torch", "cutensor"):
                s = ALSSolver(N, T, (nD, D, p), c)
                s.backend, s.tol = b, tl
                solvers.append(s)
            # both start from the same tensors
            start = lambda self: (x1, x2, n12g)
            with util.patched((ALSSolver, "initialize_tensors", start)):
                r = []
                for s in solvers:
                    n = [0]

                    def failing(op, n=n):
                        if op != "cholesky":
                            return False
                        n[0] += 1
                        return n[0] - 1 in fail
                    w.inject_failures(failing if fail else None)
                    r.append(s.solve())
                    w.inject_failures(None)
            for a, b, what in zip(r[1], r[0], ("first", "second")):
                w.require(tuple(a.shape) == (nD, D, p), "the requested bond dimension")
                w.equal(a, b, f"the {what} tensor is the torch backend's")
        for a, b in zip((N, T, n12g, x1, x2), args):
            w.equal(a, b, "inputs are not modified")
        for kind, dt, bits in [x for x in ses.log if x[0] == "compute"][:16]:
            w.require(bits == (64 if dt in (torch.float64, torch.complex128) else 32), "contractions are computed in the precision of their tensors")


M = ("cholesky", "pinv")
B = dict(nD=2, D=1, p=2)
Q = [dict(B, method=m, niter=n) for m in M for n in (0, 1, 2, 4)] + \
    [dict(nD=2, D=2, p=3, method="cholesky", niter=1), dict(nD=3, D=2, p=2, method="pinv", niter=1),
     dict(B, method="cholesky", niter=3, real=True), dict(B, method="pinv", niter=2, real=True),
     dict(B, method="cholesky", niter=2, single=True, eps=2.**-20), dict(B, method="pinv", niter=1, single=True, real=True, eps=2.**-20),
     dict(B, method="cholesky", niter=2, fail=(0,)), dict(B, method="cholesky", niter=2, fail=(1, 2)),
     dict(B, method="cholesky", niter=2, layout=(0, 1, 2, 3, 4)), dict(B, method="cholesky", niter=1, workspace=0, eps=0.01),
     dict(B, method="pinv", niter=1, exhausted=(0, 4))]
T_ = Q + [dict(nD=n, D=D, p=p, method=m, niter=k, real=r) for n, D, p in ((2, 2, 2), (3, 1, 2), (3, 2, 2), (2, 1, 3)) for m in M for k in (1, 3) for r in (False, True)] + \
    [dict(B, method=m, niter=k) for m in M for k in (3, 5, 6)] + \
    [dict(B, method="cholesky", niter=3, fail=f) for f in ((0,), (1,), (2,), (0, 1), (3,), (0, 1, 2, 3, 4, 5))] + \
    [dict(B, method=m, niter=2, layout=(i,)) for m in M for i in range(5)] + \
    [dict(B, method=m, niter=1, single=True, real=r, eps=e) for m in M for r in (False, True) for e in (2.**-40, 2.**-3)]
HARNESSES = [Harness("solve", solve, T_, T_ + [dict(nD=n, D=D, p=p, method=m, niter=k) for n, D, p in ((4, 2, 2), (3, 3, 3), (1, 1, 2), (4, 3, 2)) for m in M for k in (2, 8)], "up to 6 (8) iterations; reduced dimension, bond and physical dimension up to 3 (4); all four number types; failing factorisations; transposed inputs; failing allocations")]
ASSUMPTIONS = ["the C++ sources are compiled against libtorch with a substituted floating point type; cuTENSOR contractions and "
               "cuSOLVER factorisations do what their documentation says with the descriptors, strides and pointers they are given",
               "a solution of a linear system is a function of that system (named, not expanded)"]
OUTSIDE = ("races between CUDA streams, device memory limits beyond failing workspace allocations, error codes of the GPU libraries "
           "other than a failing factorisation; lazily conjugated inputs")


def FUNCTIONS():
    return cutensor.functions(REPO)


def PREPARE():
    """compile once, before the instances are divided among processes"""
    try:
        cutensor.build(REPO)
    except (cutensor.BuildError, cutensor.Unsupported):
        pass                                # every instance reports it
