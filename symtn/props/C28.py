"""Configuration options reach the algorithm they name; defaults apply; unknown options are rejected."""
import torch
from ..harness import Harness
from . import util

DEFAULTS = {
    "ctmrg": dict(steps=40, projectors="half-system", svd_type="rsvd", svd_cutoff=1e-12, rsvd_niter=2, rsvd_oversampling=2, disable_progressbar=False),
    "evolution": dict(backend="torch", update_type="full", use_gauge_fix=True, gauge_fix_atol=1e-12, positive_approx_cutoff=1e-12, als_niter=100,
                      als_tol=1e-15, als_method="cholesky", als_epsilon=1e-12, disable_progressbar=False)}


class Stop(Exception):
    """the stand-in has seen what it wanted to see"""


def bound(f, a, k):
    import inspect
    b = inspect.signature(f).bind(*a, **k)
    b.apply_defaults()
    return b.arguments


def minimal(**sections):
    return {"TN": {"nx": 2, "ny": 2, "dims": {"phys": 2, "bond": 1, "chi": 2}}, **sections}


def same(a, b):
    """identical objects or equal values (symbolic values are passed around by reference)"""
    return True if a is b else a == b


def values(w, section):
    """a value the solver chooses for every option of a section, different from the default where there are two choices"""
    i, s, c, f = w.integer, w.scalar, w.choose, w.flip
    if section == "ctmrg":
        return dict(steps=i("steps", 0, 3), projectors="full-system", svd_type="full-rank", svd_cutoff=w.real("cut", 0.001, 0.9),
                    rsvd_niter=i("niter", 0, 5), rsvd_oversampling=i("over", 0, 5), disable_progressbar=True)
    return dict(backend="torch", update_type="simple", use_gauge_fix=False, gauge_fix_atol=s("atol"), positive_approx_cutoff=s("pcut"),
                als_niter=i("als", 0, 5), als_tol=s("tol"), als_method="pinv", als_epsilon=s("eps"), disable_progressbar=True)


def parsing(w, section):
    """any subset of options: given ones have exactly the given value, the others their documented default"""
    from acetn.ipeps.ipeps_config import IpepsConfig
    vals = values(w, section)
    names = sorted(vals)
    mode = w.choose("mode", ("one", "all but one", "none", "absent"))
    pick = w.choose("option", names)
    given = {} if mode in ("none", "absent") else {n: v for n, v in vals.items() if (n == pick) == (mode == "one")}
    user = dict(given)
    top = minimal() if mode == "absent" else minimal(**{section: user})
    other = IpepsConfig(**minimal())
    c = IpepsConfig(**top)
    third = IpepsConfig(**minimal())
    got = vars(getattr(c, section))
    w.require(set(got) == set(DEFAULTS[section]), "the documented options")
    for n in DEFAULTS[section]:
        w.require(same(got[n], given.get(n, DEFAULTS[section][n])), f"{section}.{n}")
    for o in (other, third):
        for sec in DEFAULTS:
            for n, v in DEFAULTS[sec].items():
                w.require(getattr(getattr(o, sec), n) == v, f"the default of {sec}.{n} is not affected by another configuration")
    w.require(set(user) == set(given) and all(user[n] is given[n] for n in given), "the user's options are not modified")


def basics(w):
    """data type, device, cell and dimensions"""
    from acetn.ipeps.ipeps_config import IpepsConfig
    from acetn.ipeps import Ipeps
    dt = w.choose("dtype", ("absent", "none", "float32", "float64", "complex64", "complex128", "object"))
    kw = {} if dt == "absent" else {"dtype": None} if dt == "none" else {"dtype": torch.float32} if dt == "object" else {"dtype": dt}
    want = {"absent": torch.float64, "none": torch.float64, "object": torch.float32}.get(dt) or getattr(torch, dt)
    dev = w.choose("device", ("absent", "cpu", "object"))
    if dev != "absent":
        kw["device"] = "cpu" if dev == "cpu" else torch.device("cpu")
    nx, ny = w.integer("nx", 2, 3), w.integer("ny", 2, 3)
    p, D, chi = w.choose("p", (1, 2, 3)), w.choose("D", (1, 2)), w.choose("chi", (3, 4))
    tn = {"nx": int(nx), "ny": int(ny), "dims": {"phys": p, "bond": D, "chi": chi}}
    with w.concrete():
        net = Ipeps({"TN": tn, "model": {"name": "ising", "params": {"jz": 1., "hx": 1.}}, **kw})
    w.require(net.dtype == want and net.config.dtype == want and net.config.model.dtype == want, "the data type")
    w.require(net.device == torch.device("cpu") and net.config.model.device == torch.device("cpu"), "the device")
    w.require(same(net.nx, tn["nx"]) and same(net.ny, tn["ny"]) and len(net.site_list) == tn["nx"] * tn["ny"], "the unit cell")
    w.require(dict(net.dims) == tn["dims"] and net.config.model.dim == p, "the dimensions")
    for s in net.site_list:
        w.require(tuple(net[s]["A"].shape) == (D, D, D, D, p) and net[s]["A"].dtype == want, "the site tensors have the requested size and data type")
        w.require(all(x.dtype == want for x in net[s]["C"] + net[s]["E"]), "the boundary tensors have the requested data type")
    c2 = IpepsConfig(TN={})
    w.require((c2.TN.nx, c2.TN.ny, dict(c2.TN.dims)) == (2, 2, {"phys": 2, "bond": 2, "chi": 20}), "the default cell and dimensions")
    c2.TN.dims["chi"] = 3
    w.require(dict(IpepsConfig(TN={}).TN.dims) == {"phys": 2, "bond": 2, "chi": 20}, "defaults are not shared")


def jobs(w):
    """progress bars are disabled automatically in batch jobs only"""
    import os
    from acetn.ipeps.ipeps_config import IpepsConfig
    job = w.flip("in a job")
    name, part = w.choose("name", (None, "interactive", "run")), w.choose("partition", (None, "interactive", "long"))
    quiet = {"ctmrg": w.choose("ctmrg", (None, True, False)), "evolution": w.choose("evolution", (None, True, False))}
    env = {"SLURM_JOB_ID": "17" if job else None, "SLURM_JOB_NAME": name, "SLURM_JOB_PARTITION": part}
    old = {n: os.environ.get(n) for n in env}

    def put(vals):
        for n, v in vals.items():
            os.environ.pop(n, None)
            if v is not None:
                os.environ[n] = v
    try:
        put(env)
        c = IpepsConfig(**minimal(**{s: ({} if q is None else {"disable_progressbar": q}) for s, q in quiet.items()}))
    finally:
        put(old)
    for s, q in quiet.items():
        want = True if job and "interactive" not in (name, part) else bool(q)
        w.require(getattr(c, s).disable_progressbar is want, f"{s}.disable_progressbar")


def devices(w):
    """the device of the configuration; without CUDA the cpu takes its place"""
    from acetn.ipeps.ipeps_config import IpepsConfig
    cuda = w.boolean("cuda")
    dev = w.choose("device", ("absent", None, "cpu", "cuda", "meta", "cpu object", "cuda object"))
    kw = {} if dev == "absent" else {"device": torch.device(dev.split()[0]) if dev and "object" in dev else dev}
    with util.patched((torch.cuda, "is_available", lambda: cuda)):
        c = IpepsConfig(**minimal(), **kw)
    kind = {"absent": "cpu", None: "cuda"}.get(dev) or dev.split()[0]
    if kind == "cuda" and not cuda:
        kind = "cpu"
    w.require(c.device == torch.device(kind) and c.model.device == torch.device(kind), "the device")


def unknown(w):
    """options that do not exist and values that mean nothing are rejected"""
    from acetn.ipeps.ipeps_config import IpepsConfig
    from acetn.ipeps import Ipeps
    case = w.choose("case", ("top", "TN", "ctmrg", "evolution", "model", "no TN", "update_type", "projectors", "model name", "no model"))
    kind = None
    try:
        if case == "top":
            IpepsConfig(**minimal(steps=3))
        elif case == "TN":
            t = minimal()
            t["TN"]["chi"] = 3
            IpepsConfig(**t)
        elif case in ("ctmrg", "evolution", "model"):
            IpepsConfig(**minimal(**{case: {"nosuchoption": 1}}))
        elif case == "no TN":
            IpepsConfig()
        else:
            with w.concrete():
                if case == "update_type":
                    Ipeps(minimal(evolution={"update_type": "none", "disable_progressbar": True}, ctmrg={"steps": 0, "disable_progressbar": True},
                                  model={"name": "ising", "params": {"jz": 1., "hx": 1.}})).evolve(0.1, 1)
                elif case == "projectors":
                    Ipeps(minimal(ctmrg={"projectors": "third-system", "steps": 1, "disable_progressbar": True})).renormalize()
                elif case == "model name":
                    Ipeps(minimal(model={"name": "nosuch"})).measure()
                else:
                    Ipeps(minimal()).measure()
    except Exception as e:
        kind = type(e)
    want = {"update_type": ValueError, "projectors": ValueError, "model name": KeyError, "no model": ValueError}.get(case, TypeError)
    w.require(kind is want, f"rejected: {case}")


def make(w, chi, ctmrg=None, evolution=None, D=1, p=1):
    """a real network, options and all, with generic tensors"""
    from acetn.ipeps import Ipeps
    from acetn.utils.logger import log_initial_message
    w.dtype = torch.float64
    # printing the configuration needs plain numbers
    with w.concrete(), util.patched(*util.patch_everywhere("log_initial_message", log_initial_message, lambda *a, **k: None)):
        net = Ipeps(util.cfg(2, 2, chi, D, p, "float64", ctmrg, evolution))
    util.fill(w, net, chi, D, p)
    return net


def sweeps(w):
    """steps reaches the renormalisation, also after another network was made"""
    from acetn.renormalization.directional_mover import DirectionalMover
    n = w.integer("steps", 0, 4)
    net = make(w, 2, ctmrg={"steps": n})
    other = make(w, 2, ctmrg={"steps": 7})
    log = []
    with util.patched(*((DirectionalMover, m, lambda self, ipeps, i, m=m: log.append(m)) for m in util.MOVES.values())):
        net.renormalize()
    for m in util.MOVES.values():
        w.require(n * 2 == log.count(m), "the requested number of sweeps")


def decomposition(w):
    """projector type, decomposition type, power iterations, oversampling and boundary dimension"""
    from acetn.linalg import svd_lowrank, fused_matmul_svd_lowrank, fused_3matmul_svd_lowrank
    proj = w.choose("projectors", ("half-system", "full-system"))
    kind = w.choose("svd_type", ("rsvd", "full-rank"))
    chi = w.choose("chi", (1, 2, 3))
    newchi = w.choose("set_chi", (None, 5))
    niter, over = w.integer("niter", 0, 6), w.integer("over", 0, 6)
    net = make(w, chi, ctmrg=dict(steps=1, projectors=proj, svd_type=kind, rsvd_niter=niter, rsvd_oversampling=over))
    other = make(w, 4, ctmrg=dict(steps=1, projectors="full-system", svd_type="rsvd", rsvd_niter=9, rsvd_oversampling=9))
    if newchi:
        net.set_chi(newchi)
    seen = []

    def stub(nm, f):
        def g(*a, **k):
            seen.append((nm, bound(f, a, k)))
            raise Stop()
        return g
    fs = [("svd_lowrank", svd_lowrank), ("fused_matmul_svd_lowrank", fused_matmul_svd_lowrank), ("fused_3matmul_svd_lowrank", fused_3matmul_svd_lowrank)]
    svd0 = torch.linalg.svd
    pats = [t for n, f in fs for t in util.patch_everywhere(n, f, stub(n, f))]

    def full(A, *a, **k):
        seen.append(("svd", {"A": A}))
        raise Stop()
    pats += [(torch.linalg, "svd", full)] + util.patch_everywhere("svd", svd0, full)
    try:
        with util.patched(*pats):
            net.renormalize()
        w.require(False, "a decomposition is computed")
    except Stop:
        pass
    nm, args = seen[0]
    if kind == "full-rank":
        w.require(nm == "svd", "a complete decomposition")
    else:
        w.require(nm in ("svd_lowrank", "fused_matmul_svd_lowrank", "fused_3matmul_svd_lowrank"), "a randomised decomposition")
        w.require(args["niter"] == niter, "the requested number of power iterations")
        w.require(args["q"] == over + (newchi or chi), "boundary dimension plus oversampling")
    # which part of the surroundings enters: two or four quarters
    m = [v for n, v in args.items() if isinstance(v, torch.Tensor)]
    if nm in ("svd_lowrank", "svd"):
        prod = m[0]
    else:
        prod = m[0]
        for x in m[1:]:
            prod = prod @ x
    from acetn.renormalization.projectors import ProjectorCalculator as PC
    quarter = lambda s, k: PC.make_quarter_tensor(net[s], k)[0]
    sites = [util.plaquette(s, k, 2, 2) + [k] for s in net.site_list for k in range(4)]
    # the matrix that is decomposed, at any of the bonds: the first renormalised one is not prescribed
    half = [quarter(a, k) @ quarter(d, k + 3) for a, b, c, d, k in sites]
    fullm = [quarter(b, k + 1) @ quarter(a, k) @ quarter(d, k + 3) @ quarter(c, k + 2) for a, b, c, d, k in sites]
    w.one_of(prod, half if proj == "half-system" else fullm, "the configured part of the surroundings is decomposed")


def cutoff(w, chi, n):
    """relative singular values above the cutoff are kept, at most chi of them"""
    from acetn.renormalization.projectors import ProjectorCalculator
    from acetn.linalg import fused_matmul_svd_lowrank
    cut = w.real("cut", 0.01, 0.9)
    new = w.choose("set_chi", (None, 1))
    net = make(w, n, ctmrg=dict(svd_cutoff=cut, projectors="half-system", svd_type="rsvd"))
    net.set_chi(new or chi)
    U, s, Vh = torch.linalg.svd(w.tensor("F", n, n))
    V = Vh.mH
    from acetn.renormalization.directional_mover import DirectionalMover
    with util.patched(*util.patch_everywhere("fused_matmul_svd_lowrank", fused_matmul_svd_lowrank, lambda *a, **k: (U, s, V))):
        mover = DirectionalMover(net.config.ctmrg)
        p1, p2 = ProjectorCalculator(net.config.ctmrg).calculate(net, util.plaquette((0, 0), 0, 2, 2), 0)
    z = p1.shape[-1]
    want = 1
    rel = s / s[0]
    for i in range(1, n):
        if rel[i] > cut:
            want += 1
    w.require(z == min(new or chi, want) and p2.shape[-1] == z, "the retained rank follows cutoff and boundary dimension")


def updates(w):
    """the options of the full update reach positive approximation, gauge fixing and least squares"""
    from acetn.evolution import full_update as fu
    from acetn.evolution.als_solver import ALSSolver
    g = w.flip("gauge")
    opts = dict(update_type="full", use_gauge_fix=g, gauge_fix_atol=w.scalar("atol"), positive_approx_cutoff=w.scalar("pcut"), als_niter=w.integer("als", 0, 9),
                als_tol=w.scalar("tol"), als_method=w.choose("method", ("cholesky", "pinv")), als_epsilon=w.scalar("eps"))
    net = make(w, 1, ctmrg={"steps": 0}, evolution=opts, p=2)
    other = make(w, 1, ctmrg={"steps": 0}, evolution={"update_type": "full", "als_niter": 50}, p=2)
    seen = {}
    pa, gf = fu.positive_approx, fu.gauge_fix

    def positive(*a, **k):
        seen["cutoff"] = bound(pa, a, k)["cutoff"]
        n = a[0].shape[0]
        return w.tensor("nz", n, n, n * n)

    def gauge(*a, **k):
        b = bound(gf, a, k)
        seen["atol"] = b["atol"]
        n = b["a12g"].shape[0]
        return w.tensor("n12", n, n, n, n), b["a12g"], w.tensor("ri", n, n), w.tensor("rj", n, n)

    class ALS:
        def __init__(self, *a, **k):
            b = bound(ALSSolver.__init__, (self,) + a, k)
            seen["config"] = b["config"]
            # the solver as configured, with the real constructor
            seen["solver"] = ALSSolver(*a, **k)

        def solve(self):
            raise Stop()
    try:
        with util.patched(*util.patch_everywhere("positive_approx", pa, positive), *util.patch_everywhere("gauge_fix", gf, gauge),
                          *util.patch_everywhere("ALSSolver", ALSSolver, ALS)):
            with w.concrete():
                model = net.create_model()
                from acetn.evolution.gate import Gate
                gate = Gate(model, 0.01, net.bond_list, net.site_list)
            from acetn.evolution.evolve import create_tensor_updater
            create_tensor_updater(net, gate, net.config.evolution).bond_update(w.choose("bond", net.bond_list[:2]))
        w.require(False, "the least squares problem is solved")
    except Stop:
        pass
    w.require(seen["cutoff"] is opts["positive_approx_cutoff"], "the cutoff of the positive approximation")
    w.require(("atol" in seen) == g, "gauge fixing happens exactly when requested")
    if g:
        w.require(seen["atol"] is opts["gauge_fix_atol"], "the tolerance of gauge fixing")
    c = seen["config"]
    for n in ("als_niter", "als_tol", "als_method", "als_epsilon"):
        w.require(same(getattr(c, n), opts[n]), f"{n} reaches the least squares solver")
    sv = seen["solver"]
    for n in ("niter", "tol", "method", "epsilon"):
        if hasattr(sv, n):
            w.require(same(getattr(sv, n), opts["als_" + n]), f"als_{n} reaches the least squares solver")


def scheme(w):
    """update_type selects the scheme, progress bars can be disabled, an unavailable backend falls back"""
    import sys
    import acetn.evolution.evolve
    import acetn.renormalization.ctmrg
    ev, ct = sys.modules["acetn.evolution.evolve"], sys.modules["acetn.renormalization.ctmrg"]
    from acetn.evolution.fast_full_update import FastFullUpdater
    from acetn.evolution.simple_update import SimpleUpdater
    from acetn.renormalization.directional_mover import DirectionalMover
    kind = w.choose("update_type", ("full", "simple", None))
    quiet = w.flip("quiet")
    backend = w.choose("backend", ("torch", "cutensor"))
    rank = w.choose("rank", (0, 1))
    e = {"disable_progressbar": quiet, "backend": backend}
    if kind:
        e["update_type"] = kind
    net = make(w, 1, ctmrg={"steps": 1, "disable_progressbar": not quiet}, evolution=e, p=2)
    net.rank = rank
    w.require(net.config.evolution.backend == "torch", "without the extension the torch backend is used")
    log, bars = [], []

    class Bar:
        def __init__(self, it=(), *a, disable=False, **k):
            self.it = it
            bars.append(disable)

        def __iter__(self):
            return iter(self.it)

        def update(self, n=1):
            pass
        write = staticmethod(lambda *a, **k: None)
    bond = lambda n: (lambda self, b: (log.append(n), (0., 0.))[1])
    with util.patched((ev, "tqdm", Bar), (ct, "tqdm", Bar), (FastFullUpdater, "bond_update", bond("full")), (SimpleUpdater, "bond_update", bond("simple")),
                      *((DirectionalMover, m, lambda self, ipeps, i: None) for m in util.MOVES.values())):
        net.renormalize()
        w.require(bars == [(not quiet) or rank != 0], "the progress bar of the renormalisation")
        bars.clear()
        with w.concrete():
            model = net.create_model()
            ev.evolve(net, 0.01, 1, model, net.config.evolution)
        w.require(bars == [quiet or rank != 0], "the progress bar of the evolution")
    w.require(log == [kind or "full"] * 8, "the requested update scheme")


HARNESSES = [Harness("parsing", parsing, [dict(section=s) for s in DEFAULTS], None, "single options, all but one, none; numeric values symbolic"),
             Harness("basics", basics, [dict()], None, "all data types, cells up to 3x3, dimensions up to 3", max_paths=20000),
             Harness("jobs", jobs, [dict()], None, "every combination of batch and interactive jobs and settings"),
             Harness("devices", devices, [dict()], None, "every way of naming a device, with and without CUDA"),
             Harness("unknown", unknown, [dict()], None, "unknown options per section, invalid names"),
             Harness("sweeps", sweeps, [dict()], None, "symbolic number of sweeps up to 4"),
             Harness("decomposition", decomposition, [dict()], None, "symbolic power iterations and oversampling; chi up to 3 and changed to 5"),
             Harness("cutoff", cutoff, [dict(chi=2, n=3)], [dict(chi=c, n=n) for c in (1, 2, 3) for n in (3, 4)], "symbolic cutoff and spectrum of 3 (4) values"),
             Harness("updates", updates, [dict()], None, "symbolic tolerances, cutoffs and iteration limit"),
             Harness("scheme", scheme, [dict()], None, "all schemes and backends")]
ASSUMPTIONS = ["what the algorithms do with the values is decided by C12, C13, C16, C19, C20, C21"]
OUTSIDE = "computing on CUDA devices"
