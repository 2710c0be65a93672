"""Fast full update: updated tensors are stored, then the bond's own columns (rows) are absorbed from both sides."""
import torch
import torch.distributed as dist
from ..harness import Harness, Violated
from . import util
from .C15 import Gathers, _View


def flipped(b):
    from acetn.ipeps.bond import Bond
    return Bond(b.s2, b.s1, (b.k + 2) % 4)


def bonds_of(net, which):
    """one bond of each orientation (the last of its kind: wraps around the cell) or all of them"""
    if which == "all":
        return net.bond_list + [flipped(b) for b in net.bond_list]
    h = [b for b in net.bond_list if b.k == 2]
    v = [b for b in net.bond_list if b.k == 1]
    r = [h[0], h[-1], v[0], v[-1]]
    return r + [flipped(b) for b in r]


def updater(net, new, asked):
    from acetn.evolution.fast_full_update import FastFullUpdater
    from acetn.evolution.full_update import FullUpdater
    up = FastFullUpdater(net, "the gate", net.config.evolution)

    def update(self, a1, a2, bond):
        asked.append((bond, self.gate))
        return new
    return up, (FullUpdater, "tensor_update", update)


def spec(w, net, before, b, new, st, nx, ny):
    """site tensors stored; then the moves that absorb the bond's own lines from both sides"""
    k, m = b.k, (b.k + 2) % 4
    perm = lambda a: a.permute([(i - k) % 4 for i in range(4)] + [4])
    env = {s: dict(before[s]) for s in before}
    env[b.s1]["A"], env[b.s2]["A"] = perm(new[0]), perm(new[1])
    ch = {}
    # the side of s1 is absorbed towards s2 and vice versa: direction (k+2) pushes from s1's far side
    for d, s in ((m, b.s1), (k, b.s2)):
        line = util.line_of(d, s[0] if d in (0, 2) else s[1], nx, ny)
        ch.update(util.spec_move(env, d, line, nx, ny, lambda s_, d=d: st.make(util.plaquette(s_, d, nx, ny), d)))
    return env, ch


def check(w, net, view, env, ch, label):
    util.check_env(w, view, env, ch, label)


class Gate:
    wrap_one_site = True


def bond_update(w, nx, ny, chi, D, p, z, bond, ws=1, which="some"):
    net = util.network(w, nx, ny, chi, D, p)
    b = bonds_of(net, which)[bond]
    st = util.Projectors(w, net, z)
    before = util.snapshot(net)
    # in the bond's own frame, as an update returns them
    new = (w.tensor("B1", D, D, D, D, p), w.tensor("B2", D, D, D, D, p))
    asked = []
    up, stub = updater(net, new, asked)
    up.gate = Gate()
    env, ch = spec(w, net, before, b, new, st, nx, ny)
    if ws == 1:
        with st.patch(), util.patched(stub):
            up.mover = type(up.mover)(net.config.ctmrg)
            r = up.bond_update(b)
        w.require(len(asked) == 1 and asked[0][0] == b and asked[0][1] is up.gate, "the bond is updated once with the evolution's gate")
        w.require(len(r) == 2, "both runtimes are reported")
        util.check_env(w, net, env, ch, "after the bond update")
        return
    g = Gathers(w, ws)
    results = []
    with st.patch(), util.patched((dist, "all_gather", g.all_gather), (dist, "broadcast", g.broadcast), stub):
        up.mover = type(up.mover)(net.config.ctmrg)
        for i in range(g.PASSES):
            g.begin(i)
            for r in range(ws):
                for s in net.site_list:
                    net[s]["A"] = before[s]["A"]
                    net[s]["C"] = list(before[s]["C"])
                    net[s]["E"] = list(before[s]["E"])
                net.rank, net.world_size, net.is_distributed = r, ws, True
                asked.clear()
                g.start(r)
                up.bond_update(b)
                if g.final:
                    w.require(len(asked) <= 1, "the bond is updated at most once per worker")
                    results.append(util.snapshot(net))
        net.is_distributed = False
        g.agree()
    for res in results:
        util.check_env(w, _View(net.site_list, res), env, ch, "every worker after the bond update")


# on a 2x2 cell every bond, so that no coordinate of an end stands in for another one
S = [dict(nx=2, ny=2, chi=2, D=2, p=2, z=2, bond=i, which="all") for i in range(16)] + [dict(nx=3, ny=2, chi=2, D=2, p=2, z=3, bond=i) for i in (0, 1, 2, 5)]
W = [dict(nx=2, ny=2, chi=2, D=2, p=2, z=2, bond=i, which="all", ws=2 + i % 3) for i in range(16)]
T = S + W + [dict(nx=x, ny=y, chi=2, D=2, p=2, z=2, bond=i, ws=n) for x, y in ((3, 2), (2, 3)) for i in range(8) for n in (1, 3)] + \
    [dict(nx=2, ny=2, chi=3, D=1, p=2, z=2, bond=i) for i in (0, 3, 5, 6)]
HARNESSES = [Harness("bond_update", bond_update, T, T + [dict(nx=x, ny=y, chi=2, D=2, p=2, z=2, bond=i, ws=n) for x, y in ((2, 2), (3, 2), (2, 3))
                                                             for i in range(8) for n in (1, 2, 3, 5, 8)],
                     "2x2 and 3x2 (2x3) cells, every orientation, 1 to 4 (8) workers")]
ASSUMPTIONS = ["collectives deliver what was sent; workers interact only through them"]
