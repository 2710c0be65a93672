"""Distributed boundary moves leave every rank with the tensors of the sequential moves."""
import torch
import torch.distributed as dist
from ..harness import Harness, Violated
from . import util


class Gathers:
    """Stands in for the process group. Ranks run one after the other; every pass delivers what the previous pass
    recorded, so after as many passes as there are dependent collectives the values are those of a real run."""
    PASSES = 3

    def __init__(self, w, ws):
        self.w, self.ws = w, ws
        self.sent, self.last = {r: [] for r in range(ws)}, None
        self.rank, self.n, self.final = 0, 0, False

    def begin(self, i):
        self.final = i == self.PASSES - 1
        if i:
            self.last, self.sent = self.sent, {r: [] for r in range(self.ws)}

    def start(self, rank):
        self.rank, self.n = rank, 0

    def contrib(self, kind, t, src):
        self.n += 1
        self.sent[self.rank].append((kind, src, tuple(t.shape), t.clone()))
        return self.n - 1

    def peer(self, r, n, kind, shape):
        """what rank r contributed to collective n: in this pass when it has run already, else in the previous one"""
        src = self.sent[r] if r < self.rank else (self.last[r] if self.last is not None else [])
        if r == self.rank or (n >= len(src) and not self.final):
            return None
        if n >= len(src) or src[n][0] != kind or (src[n][2] != shape and self.final):
            raise Violated("the ranks agree on every collective operation", f"{kind} {shape} and {src[n] if n < len(src) else None}")
        return src[n] if src[n][2] == shape else None

    def all_gather(self, out, t, *a, **k):
        n = self.contrib("all_gather", t, None)
        for r in range(self.ws):
            if tuple(out[r].shape) != tuple(t.shape):
                raise Violated("the ranks agree on every collective operation", f"all_gather {tuple(t.shape)} {tuple(out[r].shape)}")
            x = self.peer(r, n, "all_gather", tuple(t.shape))
            if x is not None:
                out[r].copy_(x[3])
            elif r == self.rank or t.dtype == torch.int64:
                out[r].copy_(t)

    def broadcast(self, t, src=0, *a, **k):
        n = self.contrib("broadcast", t, src)
        x = self.peer(src, n, "broadcast", tuple(t.shape))
        if x is None:
            return
        if x[1] != src:
            raise Violated("the ranks agree on every collective operation", f"broadcast from {x[1]} and {src}")
        t.copy_(x[3])

    def agree(self):
        self.w.require(len({len(v) for v in self.sent.values()}) == 1, "the ranks agree on every collective operation")


def moves(w, axis, ws, nx, ny, chi, D, p, z):
    from acetn.renormalization.directional_mover import DirectionalMover
    net = util.network(w, nx, ny, chi, D, p)
    st = util.Projectors(w, net, z if z else (lambda key: 2 + (sum(key[0][0]) + key[1]) % 2))
    before = util.snapshot(net)
    g = Gathers(w, ws)
    i, j = (1 % nx, 0) if axis == "lr" else (ny - 1, 1 % ny)
    results = []
    with st.patch(), util.patched((dist, "all_gather", g.all_gather), (dist, "broadcast", g.broadcast)):
        mover = DirectionalMover(net.config.ctmrg)
        go = mover.left_right_move_dist if axis == "lr" else mover.up_down_move_dist
        for i_ in range(g.PASSES):
            g.begin(i_)
            for r in range(ws):
                for s in net.site_list:
                    net[s]["C"] = list(before[s]["C"])
                    net[s]["E"] = list(before[s]["E"])
                net.rank, net.world_size, net.is_distributed = r, ws, True
                g.start(r)
                go(net, i, j)
                if g.final:
                    results.append(util.snapshot(net))
        net.is_distributed = False
        g.agree()
    ch = {}
    for k, line in ((0, i), (2, j)) if axis == "lr" else ((1, i), (3, j)):
        ch.update(util.spec_move(before, k, util.line_of(k, line, nx, ny), nx, ny,
                                 lambda s, k=k: st.make(util.plaquette(s, k, nx, ny), k)))
    for r, res in enumerate(results):
        util.check_env(w, _View(net.site_list, res), before, ch, f"rank result ({axis})")


class _View:
    def __init__(self, site_list, d):
        self.site_list, self.d = site_list, d

    def __getitem__(self, s):
        return self.d[s]


Q = [dict(axis=a, ws=ws, nx=2, ny=2, chi=2, D=2, p=2, z=2) for a in ("lr", "ud") for ws in (2, 3, 4)] + \
    [dict(axis="lr", ws=4, nx=2, ny=3, chi=2, D=2, p=2, z=3), dict(axis="ud", ws=4, nx=3, ny=2, chi=2, D=2, p=2, z=0)]
T = Q + [dict(axis="lr", ws=8, nx=2, ny=2, chi=2, D=2, p=2, z=2)] + [dict(axis=a, ws=ws, nx=n, ny=m, chi=2, D=2, p=2, z=2) for a in ("lr", "ud") for ws in (2, 3, 4, 5, 6, 8)
         for n, m in ((2, 3), (3, 2), (3, 3), (4, 2), (2, 4))]
T = T + [dict(axis="lr", ws=ws, nx=2, ny=m, chi=2, D=2, p=2, z=z) for ws in (2, 3) for m, z in ((5, 2), (4, 0))] + \
    [dict(axis="ud", ws=ws, nx=m, ny=2, chi=2, D=2, p=2, z=z) for ws in (2, 3) for m, z in ((5, 2), (4, 0))] + [dict(axis=a, ws=2, nx=2, ny=2, chi=3, D=1, p=2, z=3) for a in ("lr", "ud")]
X = [dict(axis=a, ws=ws, nx=n, ny=m, chi=3, D=2, p=3, z=3) for a in ("lr", "ud") for ws in (2, 3, 7, 12) for n, m in ((3, 3), (5, 3), (3, 5))]
HARNESSES = [Harness("moves", moves, T, T + X, "2 to 8 (12) ranks, unit cells up to 3x3 / 5x2 (5x3)")]
ASSUMPTIONS = ["collectives deliver what was sent; ranks interact only through them"]
