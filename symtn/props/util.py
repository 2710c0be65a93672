"""Shared builders and specifications."""
import torch
from torch import einsum, conj
import acetn.ipeps
from ..harness import Violated


class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def cfg(nx, ny, chi, D, p, dtype="complex128", ctmrg=None, evolution=None, model=None):
    c = {"dtype": dtype, "device": "cpu", "TN": {"nx": nx, "ny": ny, "dims": {"phys": p, "bond": D, "chi": chi}},
         "ctmrg": dict({"disable_progressbar": True}, **(ctmrg or {})),
         "evolution": dict({"disable_progressbar": True}, **(evolution or {})),
         "model": model or {"name": "ising", "params": {"jz": 1.0, "hx": 2.5}}}
    return c


def network(w, nx, ny, chi, D, p, dtype=None, real=False, ctmrg=None, evolution=None, model=None):
    """A real Ipeps whose site, corner and edge tensors are all generic."""
    from acetn.ipeps import Ipeps
    dt = "float64" if real else "complex128"
    w.dtype = torch.float64 if real else torch.complex128
    with w.concrete():
        net = Ipeps(cfg(nx, ny, chi, D, p, dt, ctmrg, evolution, model))
    fill(w, net, chi, D, p)
    return net


def fill(w, net, chi, D, p, prefix=""):
    for s in net.site_list:
        tag = f"{prefix}{s[0]}{s[1]}"
        net[s]["A"] = w.tensor(f"A{tag}", D, D, D, D, p)
        net[s]["C"] = [w.tensor(f"C{k}_{tag}", chi, chi) for k in range(4)]
        net[s]["E"] = [w.tensor(f"E{k}_{tag}", chi, chi, D, D) for k in range(4)]
    if hasattr(w, "clear_records"):
        w.clear_records()


def spec_site_rdm(C, E, A):
    """<P|rho|p>: the double layer of A inside its eight boundary tensors.

    Clockwise ring: E0 sits on the up leg with corners C0 (left-up) and C1 (up-right), E1 on the right leg,
    E2 on the down leg, E3 on the left leg; each corner's indices are (clockwise-previous, clockwise-next).
    """
    # ring indices a..h: C0(a,b) E0(b,c) C1(c,d) E1(d,e) C2(e,f) E2(f,g) C3(g,h) E3(h,a)
    return einsum("ab,bcuU,cd,derR,ef,fgxX,gh,halL,lurxp,LURXP->Pp",
                  C[0], E[0], C[1], E[1], C[2], E[2], C[3], E[3], A, conj(A))


def bond_ring(net, s1, s2, k):
    """The ten boundary tensors around two neighbours; s2 sits across leg k of s1. Leg m carries edge tensor E[m-1],
    corner C[j] sits between legs j and j+1; the environment is one clockwise ring. Returns (tensors, subscripts) and the
    leg letters of both sites (lower case ket, upper case bra)."""
    t1, t2 = net[s1], net[s2]
    n = lambda m: m % 4
    legs1 = ["", "", "", ""]
    legs2 = ["", "", "", ""]
    legs1[k], legs2[n(k + 2)] = "x", "x"
    legs1[n(k + 1)], legs1[n(k + 2)], legs1[n(k + 3)] = "l", "m", "n"
    legs2[n(k + 3)], legs2[k], legs2[n(k + 1)] = "o", "q", "r"
    ops = [t1["E"][k], t1["C"][n(k + 1)], t1["E"][n(k + 1)], t1["C"][n(k + 2)], t1["E"][n(k + 2)],
           t2["E"][n(k + 2)], t2["C"][n(k + 3)], t2["E"][n(k + 3)], t2["C"][k], t2["E"][k]]
    sub = ["ablL", "bc", "cdmM", "de", "efnN", "fgoO", "gh", "hiqQ", "ij", "jarR"]
    return ops, sub, "".join(legs1), "".join(legs2)


def spec_bond_rdm(net, s1, s2, k):
    """<PQ|rho|pq> of two neighbours: both double-layer sites inside their ring"""
    ops, sub, a1, a2 = bond_ring(net, s1, s2, k)
    A1, A2 = net[s1]["A"], net[s2]["A"]
    ops = ops + [A1, conj(A1), A2, conj(A2)]
    sub = sub + [a1 + "s", a1.upper() + "S", a2 + "t", a2.upper() + "T"]
    return einsum(",".join(sub) + "->STst", *ops)


def neighbour(s, k, nx, ny):
    """site across leg k (0 left, 1 up, 2 right, 3 down)"""
    dx, dy = [(-1, 0), (0, 1), (1, 0), (0, -1)][k]
    return ((s[0] + dx) % nx, (s[1] + dy) % ny)


import contextlib
import sys


@contextlib.contextmanager
def patched(*triples):
    """temporarily replace public attributes: (object, name, value)"""
    old = [(o, n, getattr(o, n)) for o, n, _ in triples]
    try:
        for o, n, v in triples:
            setattr(o, n, v)
        yield
    finally:
        for o, n, v in reversed(old):
            setattr(o, n, v)


def patch_everywhere(name, original, value):
    """(module, name, value) for every repository module that holds `original` under `name`"""
    return [(m, n, value) for mn, m in list(sys.modules.items()) if mn.startswith("acetn")
            for n, x in list(vars(m).items()) if x is original]


class Projectors:
    """Stands in for ProjectorCalculator: generic projectors, one pair per (sites, direction)."""

    def __init__(self, w, net, z):
        self.w, self.z, self.pairs, self.calls = w, z, {}, []
        self.net = net

    def make(self, sites, k):
        key = (tuple(tuple(s) for s in sites), k % 4)
        if key not in self.pairs:
            chi, D = self.net.dims["chi"], self.net.dims["bond"]
            nm = "_".join(f"{a}{b}" for a, b in key[0]) + f"k{key[1]}"
            # the rank may differ from bond to bond
            z = self.z(key) if callable(self.z) else self.z
            self.pairs[key] = (self.w.tensor("P" + nm, chi, D, D, z), self.w.tensor("R" + nm, chi, D, D, z))
        return self.pairs[key]

    def factory(self):
        outer = self

        class Stub:
            def __init__(self, config, *a, **k):
                self.config = config

            def calculate(self, ipeps, sites, k):
                outer.calls.append((tuple(tuple(s) for s in sites), k % 4))
                return outer.make(sites, k)
        return Stub

    def patch(self):
        from acetn.renormalization.projectors import ProjectorCalculator
        return patched(*patch_everywhere("ProjectorCalculator", ProjectorCalculator, self.factory()))


def plaquette(s1, k, nx, ny):
    """sites whose quarter systems surround the bond between s1 and its neighbour across leg k+3"""
    a = neighbour(s1, (k + 2) % 4, nx, ny)
    d = neighbour(s1, (k + 3) % 4, nx, ny)
    return [s1, a, neighbour(a, (k + 3) % 4, nx, ny), d]


def spec_move(env, k, line, nx, ny, proj):
    """Absorb one column/row (the sites of `line`) in direction k. env: {site: {"A","C":[4],"E":[4]}} before the move;
    returns {(site, kind, index): tensor} of everything the move replaces."""
    n = lambda m: m % 4
    out = {}
    for s1 in line:
        up, s2 = neighbour(s1, n(k + 1), nx, ny), neighbour(s1, n(k + 2), nx, ny)
        p1, p2 = proj(s1)
        q1, q2 = proj(up)
        t = env[s1]
        legs = ["", "", "", ""]
        legs[k], legs[n(k + 1)], legs[n(k + 2)], legs[n(k + 3)] = "l", "u", "r", "d"
        a = "".join(legs)
        out[(s2, "C", n(k + 3))] = einsum("ablL,bc,clLx->ax", t["E"][n(k + 2)], t["C"][n(k + 3)], p1)
        out[(s2, "C", k)] = einsum("ab,bcrR,arRx->xc", t["C"][k], t["E"][k], q2)
        out[(s2, "E", n(k + 3))] = einsum(f"ablL,buUx,{a}p,{a.upper()}p,adDy->yxrR", t["E"][n(k + 3)], q1,
                                          t["A"], conj(t["A"]), p2)
    return out


def snapshot(net):
    return {s: {"A": net[s]["A"], "C": list(net[s]["C"]), "E": list(net[s]["E"])} for s in net.site_list}


def line_of(k, i, nx, ny):
    return [(i, y) for y in range(ny)] if k in (0, 2) else [(x, i) for x in range(nx)]


MOVES = {0: "left_move", 1: "up_move", 2: "right_move", 3: "down_move"}


def check_env(w, net, before, changed, label):
    """every boundary tensor is either the specified new one (normalised) or untouched"""
    for s in net.site_list:
        w.equal(net[s]["A"], before[s]["A"], f"{label}: site tensors untouched")
        for kind in ("C", "E"):
            for i in range(4):
                got = net[s][kind][i]
                if (s, kind, i) in changed:
                    w.proportional(got, changed[(s, kind, i)], f"{label}: absorbed {kind} tensor")
                    w.unit_norm(got, f"{label}: boundary tensors are normalised")
                else:
                    w.equal(got, before[s][kind][i], f"{label}: other boundary tensors untouched")


def occurrences(c, seq):
    """how often the (possibly symbolic) integer c occurs in seq"""
    from ..paths import SymInt, zi
    if isinstance(c, SymInt):
        from ..z3env import z3
        return SymInt(z3.Sum([z3.If(c.z == zi(i), 1, 0) for i in seq] + [z3.IntVal(0)]))
    return sum(1 for i in seq if i == c)


def full_updater(w, D=1, p=1, net=None, gate=None, real=False, **cfgs):
    """a FullUpdater of the repository with a stand-in network"""
    from acetn.evolution.full_update import FullUpdater
    from acetn.ipeps.ipeps_config import EvolutionConfig
    with w.concrete():
        c = EvolutionConfig(disable_progressbar=True, **cfgs)
        return FullUpdater(net or Obj(dims={"bond": D, "phys": p, "chi": 1}), gate, c)


def pair(x1, x2):
    """the two reduced tensors joined over the bond: (y, p, x, q)"""
    return einsum("yup,xuq->ypxq", x1, x2)


def apply_gate(t, G):
    return einsum("ypxq,pqrs->yrxs", t, G)


class Files:
    """Stands in for torch.save / torch.load when tensors are symbolic: the object graph is really pickled, tensors are
    stored by value. On real tensors the real functions are used, in a scratch directory."""

    def __init__(self, w):
        import tempfile
        self.w, self.store = w, {}
        self.dir = tempfile.mkdtemp(prefix="symtn")

    def path(self, name):
        import os
        return os.path.join(self.dir, name)

    def save(self, obj, f, *a, **k):
        import io
        import pickle
        vals, buf = [], io.BytesIO()

        class P(pickle.Pickler):
            def persistent_id(self, x):
                if isinstance(x, torch.Tensor):
                    vals.append(x.clone())
                    return len(vals) - 1
        P(buf).dump(obj)
        self.store[str(f)] = (buf.getvalue(), vals)

    def load(self, f, *a, **k):
        import io
        import pickle
        data, vals = self.store[str(f)]
        got = {}

        class U(pickle.Unpickler):
            def persistent_load(self, i):
                return got.setdefault(i, vals[i].clone())
        return U(io.BytesIO(data)).load()

    @contextlib.contextmanager
    def patch(self):
        import shutil
        try:
            if self.w.symbolic:
                with patched((torch, "save", self.save), (torch, "load", self.load)):
                    yield
            else:
                yield
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)


def state(net):
    """every value of a network: tensors by value, lists and dimensions by content"""
    import copy
    t = {(s, k, i): x.clone() for s in net.site_list for k, xs in (("A", [net[s]["A"]]), ("C", net[s]["C"]), ("E", net[s]["E"]))
         for i, x in enumerate(xs)}
    meta = {"dims": dict(net.dims), "nx": net.nx, "ny": net.ny, "sites": list(net.site_list), "bonds": list(net.bond_list),
            "dtype": net.dtype, "site dims": {s: dict(net[s].dims) for s in net.site_list}}
    c = getattr(net, "config", None)
    if c is not None:
        meta["config"] = {"ctmrg": dict(vars(c.ctmrg)), "evolution": dict(vars(c.evolution)), "name": c.model.name,
                          "params": dict(c.model.params), "dims": dict(c.TN.dims)}
        meta["initialised"] = net.site_states_initialized
    return t, meta


def same_state(w, net, old, label, ignore=()):
    t, meta = state(net)
    w.require(set(t) == set(old[0]), f"{label}: same tensors")
    for k in t:
        w.equal(t[k], old[0][k], f"{label}: {k[1]} tensors")
    for k in meta:
        if k not in ignore:
            w.require(meta[k] == old[1].get(k, meta[k]), f"{label}: {k}")


def either(*cases):
    """the first of several equivalent readings of the observed calls that is satisfied"""
    err = None
    for f in cases:
        try:
            return f()
        except Violated as e:
            err = err or e
    raise err


def svd_layouts(rec, n, p):
    """a decomposed pair matrix as (y, p, x, q), with its factors, for every layout of the legs over rows and columns"""
    M, (U, S, Vh) = rec["args"][0], rec["outs"]
    for swap in (False, True):
        A, X, Y = (M.mT, Vh.mT, U.mT) if swap else (M, U, Vh)
        for r in (True, False):
            for c in (True, False):
                m = A.reshape(*((n, p) if r else (p, n)), *((n, p) if c else (p, n)))
                m = m.permute(*((0, 1) if r else (1, 0)), *((2, 3) if c else (3, 2)))
                x = X.reshape(n, p, -1) if r else X.reshape(p, n, -1).permute(1, 0, 2)
                y = Y.reshape(-1, n, p) if c else Y.reshape(-1, p, n).permute(0, 2, 1)
                yield m, x, S, y
