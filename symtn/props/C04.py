"""Evolution continues from the state the user supplied; only a fresh network is initialised, once."""
import torch
from ..harness import Harness
from . import util

SOURCES = ("fresh", "from network", "from copy", "load", "load into used", "init", "evolved")

BETWEEN = ("nothing", "set model", "set parameter", "set chi")


def supplied(w, nx, ny, real, calls, given=True):
    from acetn.ipeps import Ipeps
    from acetn.evolution.fast_full_update import FastFullUpdater
    from acetn.evolution.simple_update import SimpleUpdater
    from acetn.ipeps.tensor_network import TensorNetwork
    from acetn.model.model import Model
    D, chi, p = 1, 2, 2
    w.dtype = torch.float64 if real else torch.complex128
    dt = "float64" if real else "complex128"
    cfg = util.cfg(nx, ny, chi, D, p, dt)
    src = w.choose("source", SOURCES)
    upd = w.choose("update", ("full", "simple"))
    cfg["evolution"]["update_type"] = upd
    asked = []
    files = util.Files(w)
    states = {}

    def initial(site):
        asked.append(tuple(site))
        states[tuple(site)] = [0.6, 0.8]
        return states[tuple(site)]
    made = []
    orig = TensorNetwork.initialize_site_tensors

    class Gate:
        wrap_one_site = True

        def __init__(self, *a, **k):
            pass
    from acetn.evolution.gate import Gate as Real
    with files.patch():
        def donor(prefix):
            # the state may come with another precision or as a real one
            kinds = {"complex128": (None, "float64", "complex64"), "float64": (None, "float32")}[dt]
            other = w.choose("donor type", kinds) if src not in ("fresh", "init", "evolved") else None
            own = w.dtype
            with w.concrete():
                d = Ipeps(util.cfg(nx, ny, chi, D, p, other or dt))
            w.dtype = d.dtype
            util.fill(w, d, chi, D, p, prefix)
            w.dtype = own
            return d
        if src == "from network":
            net = Ipeps(cfg, donor("d"))
        elif src == "from copy":
            net = Ipeps(cfg, donor("d").copy())
        else:
            with w.concrete():
                net = Ipeps(cfg)
            if src.startswith("load"):
                donor("d").save(files.path("a.pt"))
                if src == "load into used":
                    util.fill(w, net, chi, D, p, "u")
                net.load(files.path("a.pt"))
            elif src == "init":
                with w.concrete():
                    net.initialize_site_tensors(lambda s: [0., 1.])

        class Mine(Model):
            def initial_site_state(self, site):
                return initial(site)

            def two_site_hamiltonian(self, bond=None):
                return None
        net.set_model(Mine, {"a": 1.})
        model = Mine(net.config.model)
        seen = []
        nothing = lambda self, bond: (seen.append(util.state(self.ipeps)[0]) if not seen else None, (0., 0.))[1]
        with util.patched((FastFullUpdater, "bond_update", nothing), (SimpleUpdater, "bond_update", nothing),
                          (net, "renormalize", lambda: None),
                          *util.patch_everywhere("Gate", Real, Gate)):
            first = src == "fresh"
            for c in range(calls):
                if src == "evolved" and c == 0:
                    # a network whose state has been used before is changed by the user between two evolutions
                    net.evolve(0.1, 1, model=model)
                    util.fill(w, net, chi, D, p, "e")
                    asked.clear()
                    seen.clear()
                match w.choose(f"between{c}", BETWEEN):
                    case "set model":
                        net.set_model(Mine, {"b": 2.}, name="other")
                    case "set parameter":
                        net.set_model_params(a=3.)
                    case "set chi":
                        net.set_chi(chi + 1)
                before = util.state(net)[0]
                asked.clear()
                seen.clear()
                steps = w.choose(f"steps{c}", (0, 1)) if c else 1
                net.evolve(0.1, steps, model=model if given else None)
                after = util.state(net)[0]
                if steps:
                    w.require(len(seen) == 1, "bonds are updated")
                if first:
                    w.require(sorted(asked) == sorted(net.site_list), "a fresh network is set to the model's state, every site once")
                    for s in net.site_list:
                        A = after[(s, "A", 0)]
                        # the product state plus noise: entries away from the first stay free of the state
                        w.require(tuple(A.shape) == (D, D, D, D, p), "the configured dimensions")
                    start = after
                else:
                    w.require(not asked, "the model's initial state is not used again")
                    start = before
                for k in start:
                    if steps:
                        w.equal(seen[0][k], start[k], "the evolution starts from the supplied state")
                    w.equal(after[k], start[k], "nothing but the bond updates changes the state")
                if first:
                    # remember what the initialisation produced: the next call must keep it
                    first = False
                w.require(net.site_states_initialized, "the network has a state now")


HARNESSES = [Harness("supplied", supplied, [dict(nx=2, ny=2, real=False, calls=2), dict(nx=3, ny=2, real=True, calls=2, given=False)],
                     [dict(nx=x, ny=y, real=r, calls=3, given=g) for x, y in ((2, 2), (2, 3)) for r in (True, False) for g in (True, False)],
                     "every way of supplying a state, two (three) successive calls of evolve; D = 1, chi = p = 2; generic tensors", seeds=6, split=(("source", len(SOURCES)),))]
ASSUMPTIONS = ["bond updates and renormalisation are decided separately (C07, C11, C12, C17)"]
