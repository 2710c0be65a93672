"""All workers of a distributed calculation hold the same network."""
import os
import torch
import torch.distributed as dist
from ..harness import Harness
from . import util
from .C15 import Gathers
from .C32 import environment


def tensors(net):
    return {s: {"A": net[s]["A"], "C": list(net[s]["C"]), "E": list(net[s]["E"])} for s in net.site_list}


def start(w, ws, nx, ny, D, p, history, dtype="float64"):
    """created, copied, or created and initialised for a model ("noise": without a product state, so that larger bond
    dimensions stay within reach)"""
    from acetn.ipeps import Ipeps
    from acetn.utils.logger import log_initial_message
    w.dtype = getattr(torch, dtype)
    c = util.cfg(nx, ny, 2, D, p, dtype)
    g = Gathers(w, ws)
    quiet = util.patch_everywhere("log_initial_message", log_initial_message, lambda *a, **k: None)
    state = lambda site: [1.] + [0.] * (p - 1) if sum(site) % 2 == 0 else [0.] * (p - 1) + [1.]

    def life():
        if history == "noise":
            with w.concrete(), util.patched((dist, "broadcast", lambda *a, **k: None), (dist, "all_gather", lambda *a, **k: None)):
                net = Ipeps(c)
            net.initialize_site_tensors(lambda site: [0.] * p)
            return tensors(net)
        net = Ipeps(c)
        if history == "evolved":
            # steps and renormalisation are decided in C15 and C30
            net.set_model(Mine, {})
            net.evolve(0.1, 1)
            net.evolve(0.1, 1)
        if history == "initialised":
            net.initialize_site_tensors(state)
        elif history == "copied":
            net = Ipeps(c, net)
        return tensors(net)
    from acetn.evolution.evolve import evolve
    from acetn.renormalization.ctmrg import ctmrg
    from acetn.model.model import Model

    class Mine(Model):
        def initial_site_state(self, site):
            return state(site)

        def two_site_hamiltonian(self, bond=None):
            return None
    still = util.patch_everywhere("evolve", evolve, lambda *a, **k: None) + util.patch_everywhere("ctmrg", ctmrg, lambda *a, **k: None)
    with util.patched(*quiet, *still):
        results = []
        for i in range(g.PASSES):
            g.begin(i)
            for r in range(ws):
                with environment(RANK=str(r), WORLD_SIZE=str(ws)), \
                        util.patched((dist, "is_initialized", lambda: True), (dist, "get_rank", lambda *a: r), (dist, "get_world_size", lambda *a: ws),
                                     (os, "cpu_count", lambda: 64), (dist, "broadcast", g.broadcast),
                                     (dist, "all_gather", g.all_gather)):
                    w.random_state(r)
                    g.start(r)
                    res = life()
                if g.final:
                    results.append(res)
        g.agree()
    want = results[0]
    for r, res in enumerate(results):
        w.require(set(res) == set(want), "the same sites")
        for s in want:
            w.equal(res[s]["A"], want[s]["A"], "every worker has the same site tensors")
            for k in range(4):
                w.equal(res[s]["C"][k], want[s]["C"][k], "every worker has the same corner tensors")
                w.equal(res[s]["E"][k], want[s]["E"][k], "every worker has the same edge tensors")


Q = [dict(ws=2, nx=2, ny=2, D=2, p=2, history="noise"), dict(ws=3, nx=2, ny=2, D=2, p=2, history="noise", dtype="complex128")] + \
    [dict(ws=2, nx=2, ny=2, D=1, p=2, history=h) for h in ("created", "initialised", "copied", "evolved")] + \
    [dict(ws=3, nx=2, ny=2, D=1, p=2, history="created", dtype="complex128")]
T = Q + [dict(ws=ws, nx=3, ny=2, D=D, p=2, history="noise") for ws, D in ((4, 3), (8, 2))] + [dict(ws=ws, nx=n, ny=m, D=1, p=p, history=h, dtype=t) for ws, n, m, p in ((4, 2, 3, 2), (3, 3, 2, 3), (8, 2, 2, 2))
         for h, t in (("created", "complex128"), ("initialised", "float64"), ("copied", "float32"), ("evolved", "complex128"))]
HARNESSES = [Harness("start", start, Q, T, "2 and 3 workers (quick), up to 8 (thorough); cells up to 3x2; D = 1 with, up to 3 without an initial product state; physical dimension up to 3; generic noise, a different one on every worker")]
ASSUMPTIONS = ["collectives deliver what was sent; ranks interact only through them"]
OUTSIDE = "bond dimensions above one together with a product state; floating-point differences between the machines of a run"
