"""Time evolution: every bond once per step with its own gate, alternating order, renormalised before and after."""
import logging
import torch
from ..harness import Harness
from . import util


def evolution(w, update, nmax, smax, given, calls, debug=False):
    """the whole of Ipeps.evolve with stand-ins for one bond update, one renormalisation and the gates"""
    from acetn.ipeps import Ipeps
    from acetn.evolution.gate import Gate
    from acetn.evolution.fast_full_update import FastFullUpdater
    from acetn.evolution.simple_update import SimpleUpdater
    from acetn.utils.logger import logger
    nx, ny = w.choose("nx", list(range(2, nmax + 1))), w.choose("ny", list(range(2, nmax + 1)))
    with w.concrete():
        net = Ipeps(util.cfg(nx, ny, 1, 1, 2, evolution={"update_type": update}))
        own = net.create_model()
    log, gates = [], []
    model = util.Obj(tag="given", initial_site_state=lambda s: [1., 0.], dtype=net.dtype, device=net.device, dim=2, name="given", params={})

    class FakeGate:
        wrap_one_site = True

        def __init__(self, m, dtau, bond_list=None, site_list=None):
            self.built = (m, dtau, list(bond_list or []), list(site_list or []))
            gates.append(self)

        def __getitem__(self, b):
            return b

    def bond_update(self, bond):
        log.append(("bond", bond, self.gate, self.ipeps is net, type(self)))
        return 0., 0.
    bonds = list(net.bond_list)
    level = logger.level
    dtaus = []
    with util.patched((FastFullUpdater, "bond_update", bond_update), (SimpleUpdater, "bond_update", bond_update),
                      (net, "renormalize", lambda: log.append(("renormalize",))),
                      (net, "create_model", lambda: own),
                      *util.patch_everywhere("Gate", Gate, FakeGate)):
        if debug:
            logger.setLevel(logging.DEBUG)
        try:
            for c in range(calls):
                steps = w.integer(f"steps{c}", 10 if debug else 0, smax)
                dtau = 0.0125 * (c + 1)          # only handed on (and logged)
                n0, g0 = len(log), len(gates)
                net.evolve(dtau, steps, model=model if given else None)
                part, used = log[n0:], gates[g0:]
                ns = int(steps)
                w.require(part[0] == ("renormalize",) and part[-1] == ("renormalize",), "the environment is renormalised before and after")
                mid = part[1:-1]
                w.require(all(x[0] == "bond" for x in mid), "the environment is renormalised only before and after")
                w.require(len(mid) == ns * len(bonds), "every step updates every bond exactly once")
                want = {"full": FastFullUpdater, "simple": SimpleUpdater}[update]
                if ns:
                    w.require(len(used) >= 1, "gates are built")
                for _, b, g, mine, cls in mid:
                    w.require(mine and cls is want, "the configured scheme updates this network")
                    m, dt, bl, sl = g.built
                    w.require(m is (model if given else own), "gates of the model in use")
                    w.require(float(dt) == dtau, "gates of the time step in use")
                    w.require(set(bl) == set(bonds) and set(sl) == set(net.site_list), "gates for the whole cell")
                rounds = [[x[1] for x in mid[i * len(bonds):(i + 1) * len(bonds)]] for i in range(ns)]
                for r in rounds:
                    c_ = w.integer("bond", 0, len(bonds) - 1)
                    w.require(util.occurrences(c_, [bonds.index(b) for b in r]) == 1, "every step updates every bond exactly once")
                for a, b in zip(rounds, rounds[1:]):
                    w.require(a == b[::-1], "successive steps traverse the bonds in opposite order")
        finally:
            logger.setLevel(level)


Q = [dict(update=u, nmax=3, smax=3, given=g, calls=1) for u in ("full", "simple") for g in (True, False)] + \
    [dict(update="full", nmax=2, smax=2, given=True, calls=2), dict(update="simple", nmax=2, smax=11, given=False, calls=1, debug=True)]
T = Q + [dict(update=u, nmax=4, smax=5, given=g, calls=1) for u in ("full", "simple") for g in (True, False)] + \
    [dict(update="full", nmax=2, smax=3, given=False, calls=3)]
HARNESSES = [Harness("evolution", evolution, T, T + [dict(update=u, nmax=6, smax=8, given=True, calls=1) for u in ("full", "simple")] + [dict(update="simple", nmax=2, smax=25, given=False, calls=1, debug=True)],
                     "2 <= nx, ny <= 4 (6), steps <= 5 (8; 11, 25 with logging), two (three) successive calls")]
