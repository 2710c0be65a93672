"""Alternating least squares: normal equations of the exact distance, truncated-SVD start, schedule and stopping rule."""
import torch
from torch import einsum, conj
from ..harness import Harness, Violated
from . import util


def solver(w, n12, a12g, shape, **cfgs):
    from acetn.evolution.als_solver import ALSSolver
    from acetn.ipeps.ipeps_config import EvolutionConfig
    with w.concrete():
        c = EvolutionConfig(disable_progressbar=True, **cfgs)
    return ALSSolver(n12, a12g, shape, c)


def fixture(w, nD, D, p, real):
    w.dtype = torch.float64 if real else torch.complex128
    N = w.tensor("N", nD, nD, nD, nD)
    M = N.reshape(nD * nD, -1)
    if w.symbolic:
        # every Hermitian metric (positivity is not used by the identities)
        N = (M + M.mH).reshape(nD, nD, nD, nD)
    else:
        N = (M @ M.mH + 0.5 * torch.eye(nD * nD, dtype=M.dtype)).reshape(nD, nD, nD, nD)
    T = w.tensor("T", nD, nD, p, p)
    return N, T, w.tensor("X1", nD, D, p), w.tensor("X2", nD, D, p)


def spec_R(N, x, side):
    """metric of one reduced tensor with the other one fixed: rows conjugate, columns plain"""
    if side == 1:
        return einsum("yxYX,xuq,XUq->YUyu", N, x, conj(x))
    return einsum("yxYX,yup,YUp->XUxu", N, x, conj(x))


def spec_S(N, T, x, side):
    if side == 1:
        return einsum("yxYX,yxpq,XUq->YUp", N, T, conj(x))
    return einsum("yxYX,yxpq,YUp->XUq", N, T, conj(x))


def half(w, nD, D, p, side, method, fail=False, real=False, eps=1e-6):
    """one half step returns the solution of the (regularised) normal equations"""
    N, T, x1, x2 = fixture(w, nD, D, p, real)
    s = solver(w, N, T, (nD, D, p), als_method=method, als_epsilon=eps)
    _, _, n12g = s.initialize_tensors()
    fixed = x2 if side == 1 else x1
    w.clear_records()
    if fail:
        w.inject_failures(lambda op: op == "cholesky")
    got = (s.solve_a1r if side == 1 else s.solve_a2r)(n12g, fixed)
    w.inject_failures(None)
    w.require(tuple(got.shape) == (nD, D, p), "the solution has the requested bond dimension")
    n = nD * D
    R = spec_R(N, fixed, side).reshape(n, n)
    S = spec_S(N, T, fixed, side).reshape(n, p)
    R = 0.5 * (R + R.mH)
    reg = R + eps * R.abs().max() * torch.eye(n, dtype=R.dtype)
    recs = [r for r in w.records if r["op"] in ("cholesky", "solve", "pinv", "inv")]
    tried = [r for r in recs if r["op"] == "cholesky"]
    done = [r for r in recs if not r["failed"]]
    w.require(len(done) == 1, "one factorisation is used")
    r = done[0]
    X = got.reshape(n, p)
    if method == "pinv":
        w.require(r["op"] == "pinv", "pseudo-inverse used when asked for")
        w.equal(r["args"][0], R, "normal matrix of the distance")
        w.equal(X, r["outs"][0] @ S, "pseudo-inverse applied to the right-hand side")
        return
    w.require(len(tried) == 1, "Cholesky is tried")
    w.equal(tried[0]["args"][0], reg, "regularised normal matrix of the distance")
    if r["op"] == "cholesky":
        L = r["outs"][0]
        w.equal(X, torch.linalg.solve_triangular(L.mH, torch.linalg.solve_triangular(L, S, upper=False), upper=True),
                "solution of the normal equations by the triangular factors")
    else:
        w.require(r["op"] == "solve", "general solver after a failed factorisation")
        w.one_of(r["args"][0], [reg, R], "normal matrix of the distance")
        w.equal(X, torch.linalg.solve(r["args"][0], S), "solution of the normal equations by the general solver")


def cost(w, nD, D, p, real=False):
    """the monitored cost is the distance in the norm tensor's metric, and the normal equations are its stationarity"""
    N, T, x1, x2 = fixture(w, nD, D, p, real)
    s = solver(w, N, T, (nD, D, p))
    got = s.calculate_cost(x1, x2, T, N)
    pr = einsum("yup,xuq->yxpq", x1, x2)
    d2 = einsum("yxYX,yxpq,YXpq->", N, pr, conj(pr))
    d3 = einsum("yxYX,yxpq,YXpq->", N, T, conj(pr))
    w.equal(got, d2.real - 2 * d3.real, "cost = <pair|N|pair> - 2 Re <pair|N|target>")
    for side, x, o in ((1, x1, x2), (2, x2, x1)):
        R, S = spec_R(N, o, side), spec_S(N, T, o, side)
        w.equal(einsum("YUyu,yup,YUp->", R, x, conj(x)), d2, "the normal matrix is the cost's quadratic form")
        w.equal(einsum("YUp,YUp->", S, conj(x)), d3, "the right-hand side is the cost's linear form")


def start(w, nD, D, p, real=False):
    N, T, x1, x2 = fixture(w, nD, D, p, real)
    s = solver(w, N, T, (nD, D, p))
    w.clear_records()
    a1, a2, n12g = s.initialize_tensors()
    w.equal(n12g, einsum("yxYX,yxpq->YXpq", N, T), "target seen through the norm tensor")
    r = [r for r in w.records if r["op"] == "svd"]
    w.require(len(r) == 1, "the start is a truncated singular value decomposition")
    views = list(util.svd_layouts(r[0], nD, p))
    T4 = einsum("yxpq->ypxq", T)
    M, U, S, Vh = next((v for v in views if w.holds_equal(v[0], T4)), views[0])
    w.equal(M, T4, "the target is decomposed")
    w.require(tuple(a1.shape) == (nD, D, p) and tuple(a2.shape) == (nD, D, p), "requested bond dimension")
    w.proportional(util.pair(a1, a2), einsum("ypa,a,axq->ypxq", U[:, :, :D], S[:D] if D > 1 else S[:1] / S[0], Vh[:D]),
                   "the start is the best approximation of the target of the requested bond dimension")


def schedule(w, niter):
    """the iteration alternates, always with the newest partner; stops on convergence or after niter sweeps"""
    from acetn.evolution.als_solver import ALSSolver
    nD, D, p = 2, 1, 2
    N, T, x1, x2 = fixture(w, nD, D, p, False)
    tol = w.real("tol", 0.001, 0.5)
    s = solver(w, N, T, (nD, D, p), als_niter=niter, als_tol=0.01)
    s.tol = tol
    log, costs = [], []
    state = {"a1": None, "a2": None, "g": None}

    class Fail(Exception):
        pass

    def half1(self, n12g, a2r):
        w.equal(a2r, state["a2"], "the newest second tensor is used")
        w.equal(n12g, state["g"], "the target's projection is kept")
        state["a1"] = w.tensor("S1", nD, D, p)
        log.append(1)
        return state["a1"]

    def half2(self, n12g, a1r):
        w.equal(a1r, state["a1"], "the newest first tensor is used")
        w.equal(n12g, state["g"], "the target's projection is kept")
        state["a2"] = w.tensor("S2", nD, D, p)
        log.append(2)
        return state["a2"]

    def cost_(a1r, a2r, a12g, n12):
        w.equal(a1r, state["a1"], "cost of the newest iterate")
        w.equal(a2r, state["a2"], "cost of the newest iterate")
        c = w.real(f"cost{len(costs)}", -4., -0.5)
        costs.append(c)
        log.append("c")
        return c if isinstance(c, torch.Tensor) else c
    init = ALSSolver.initialize_tensors

    def init_(self):
        r = init(self)
        state["a1"], state["a2"], state["g"] = r
        return r
    with util.patched((ALSSolver, "solve_a1r", half1), (ALSSolver, "solve_a2r", half2),
                      (ALSSolver, "calculate_cost", staticmethod(cost_)), (ALSSolver, "initialize_tensors", init_)):
        a1, a2 = s.solve()
    w.equal(a1, state["a1"], "the newest iterate is returned")
    w.equal(a2, state["a2"], "the newest iterate is returned")
    sweeps = [x for x in log if x != "c"]
    w.require(sweeps == [1, 2] * (len(sweeps) // 2), "half steps alternate")
    n = len(sweeps) // 2
    w.require(n <= niter, "at most the requested number of sweeps")
    w.require(len(costs) == n + 1, "the cost is monitored after every sweep")
    # convergence: relative change of the cost below the tolerance, after at least three sweeps
    for i in range(1, n + 1):
        if i < 3:
            continue
        c0 = costs[i - 1].abs()
        d = costs[i] - (c0 if i == 1 else costs[i - 1])
        if i < n:
            w.require(d.abs() >= tol * c0, "no sweep after convergence")
        elif n < niter:
            w.require(d.abs() < tol * c0, "an early stop only on convergence")
    w.require(n >= min(3, niter), "no early stop in the first sweeps")


def target(w, D, p, nD, use, real=False):
    """what the full update hands to the solver: the gate applied to the bond's pair, in the bond's metric"""
    from acetn.evolution import full_update as fu
    w.dtype = torch.float64 if real else torch.complex128
    up = util.full_updater(w, use_gauge_fix=use)
    x1, x2 = w.tensor("X1", nD, D, p), w.tensor("X2", nD, D, p)
    N, G = w.tensor("N", nD, nD, nD, nD), w.tensor("G", p, p, p, p)
    nz = w.tensor("Z", nD, nD, nD * nD)
    y1, y2 = w.tensor("Y1", nD, D, p), w.tensor("Y2", nD, D, p)
    seen = []

    class Solver:
        def __init__(self, n12, a12g, shape, config):
            seen.append((n12, a12g, tuple(shape), config))

        def solve(self):
            return y1, y2
    from acetn.evolution.als_solver import ALSSolver
    N0 = N.clone()
    got = []

    def approx(n, *a, **k):
        got.append((n, a, k))
        return nz
    with util.patched((fu, "positive_approx", approx), *util.patch_everywhere("ALSSolver", ALSSolver, Solver)):
        up.update_reduced_tensors(x1, x2, N, G)
    w.require(len(seen) == 1 and len(got) == 1, "one optimisation per bond update")
    n12, a12g, shape, config = seen[0]
    w.require(shape == (nD, D, p), "the bond dimension is kept")
    w.require(config is up.config, "the solver gets the evolution settings")
    w.equal(got[0][0], N0, "the bond's norm tensor is used")
    pr = util.apply_gate(util.pair(x1, x2), G)          # y r x s
    want = einsum("yrxs->yxrs", pr)
    pos = einsum("yxz,YXz->yxYX", nz, conj(nz))
    if not use:
        w.equal(a12g, want, "target = gate applied to the pair")
        w.equal(n12, pos, "metric = positive norm tensor")
    else:
        pin = [r for r in w.records if r["op"] == "pinv"]
        w.require(len(pin) == 2, "two gauge inverses")
        def gauged(iy, ix):
            w.equal(w.reduce(einsum("ay,bx,yxrs->abrs", iy, ix, a12g)), want, "target = gauge applied to the gate-evolved pair")
            g = einsum("yxz,ya,xb->abz", nz, iy, ix)
            w.equal(n12, einsum("yxz,YXz->yxYX", g, conj(g)), "metric = positive norm tensor in the gauge")
        i = [r["outs"][0] for r in pin]
        util.either(lambda: gauged(i[0], i[1]), lambda: gauged(i[1], i[0]))


H_ = [dict(nD=2, D=2, p=2, side=s, method=m, fail=f) for s in (1, 2) for m, f in (("cholesky", False), ("cholesky", True), ("pinv", False))] + \
    [dict(nD=2, D=2, p=2, side=s, method="cholesky", real=True) for s in (1, 2)]
HARNESSES = [
    Harness("half", half, H_ + [dict(nD=n, D=D, p=p, side=s, method=m, fail=f, eps=e) for n, D, p in ((3, 2, 2), (2, 1, 3)) for s in (1, 2)
                                    for m, f in (("cholesky", False), ("cholesky", True), ("pinv", False)) for e in (1e-12, 0.1)], None,
            "reduced dimension <= 3, D <= 2, p <= 3; both solvers; failing Cholesky"),
    Harness("cost", cost, [dict(nD=n, D=2, p=p, real=r) for n in (2, 3) for p in (2, 3) for r in (False, True)], None, "reduced dimension <= 3"),
    Harness("start", start, [dict(nD=n, D=D, p=p, real=r) for n in (2, 3, 4) for D in (2, 3) for p in (2, 3) for r in (False, True)] + [dict(nD=1, D=1, p=2)],
            None, "reduced dimension <= 4, bond dimension 2 and 3"),
    Harness("schedule", schedule, [dict(niter=n) for n in range(0, 6)], [dict(niter=n) for n in range(0, 10)], "up to 5 (9) sweeps, costs and tolerance symbolic reals", seeds=4),
    Harness("target", target, [dict(D=2, p=2, nD=n, use=u, real=r) for n in (2, 3) for u in (True, False) for r in (True, False)], None, "reduced dimension 2 and 3"),
]
