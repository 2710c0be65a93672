"""Using a model never alters its operators: gates, evolution, measurement and operator algebra leave them unchanged."""
import torch
from ..harness import Harness
from . import util
from .C05 import box

OPS = ("gates", "evolve", "measure", "initial")


class Cached:
    """A model that keeps its operators and hands out the same objects every time."""

    def __init__(self, w, net, p, kind, where):
        self.name, self.dim, self.dtype, self.device, self.params = "cached", p, w.dtype, torch.device("cpu"), {}
        t = lambda n, d: box(w, w.tensor(n, d, d), kind)
        one = where == "one"            # the same matrix for every site and every bond
        self.h, self.H, self.o, self.O = {}, {}, {}, {}
        for i, s in enumerate(net.site_list):
            self.h[s] = self.h[net.site_list[0]] if one and i else t(f"h{i}", p)
            self.o[s] = {"a": self.h[s] if i == 0 else t(f"oa{i}", p), "b": t(f"ob{i}", p)}
        for i, b in enumerate(net.bond_list):
            self.H[b] = self.H[net.bond_list[0]] if one and i else t(f"H{i}", p * p)
            self.O[b] = {"c": self.H[b] if i == 0 else t(f"oc{i}", p * p)}
        self.state = {s: [0.5] * p for s in net.site_list}
        self.all = [getattr(x, "mat", x) for x in [*self.h.values(), *self.H.values(), *(v for d in self.o.values() for v in d.values()),
                                                  *(v for d in self.O.values() for v in d.values())]]

    def one_site_hamiltonian(self, site=None):
        return self.h[tuple(site)]

    def two_site_hamiltonian(self, bond=None):
        return self.H[bond]

    def one_site_observables(self, site=None):
        return self.o[tuple(site)]

    def two_site_observables(self, bond=None):
        return self.O[bond]

    def initial_site_state(self, site):
        return self.state[tuple(site)]


def history(w, p, kind, where, length, real=False):
    from acetn.evolution.gate import Gate
    from acetn.evolution.evolve import evolve
    from acetn.evolution.simple_update import SimpleUpdater
    net = util.network(w, 2, 2, 1, 1, p, real=real, evolution={"update_type": "simple"})
    model = Cached(w, net, p, kind, where)
    before = [x.clone() for x in model.all]
    dicts = [(d, dict(d)) for d in [*model.o.values(), *model.O.values()]]
    objs = [(o, o.mat) for o in [*model.h.values(), *model.H.values()] if hasattr(o, "mat")]
    dtau = w.real("dtau", 0.001, 0.5)
    done = {}
    for i in range(length):
        op = w.choose(f"op{i}", OPS)
        if op == "gates":
            g = Gate(model, dtau, net.bond_list, net.site_list)
            res = [g[b] for b in sorted(net.bond_list, key=str)]
        elif op == "evolve":
            res = []
            with util.patched((SimpleUpdater, "bond_update", lambda self, b: (res.append((b, self.gate[b])), (0, 0))[1])):
                evolve(net, dtau, 1, model, net.config.evolution)
            d = dict(res)
            res = [d[b] for b in sorted(d, key=str)]
        elif op == "measure":
            res = net.measure(model)
            res = [res[k] for k in sorted(res)]
        else:
            net2 = util.Obj(dims=net.dims, dtype=net.dtype, device=net.device)
            from acetn.ipeps.site_tensor import SiteTensor
            with w.concrete():
                SiteTensor(net.dims, site_state=model.initial_site_state((0, 0)), dtype=net.dtype, device=net.device)
            res = []
            w.require(all(v == [0.5] * p for v in model.state.values()), "the initial states are unchanged")
        for x, y in zip(model.all, before):
            w.equal(x, y, f"{op} leaves the model's operators unchanged")
        w.require(all(a == b and all(a[k] is b[k] for k in b) for a, b in dicts), f"{op} leaves the model's dictionaries unchanged")
        w.require(all(o.mat is m for o, m in objs), f"{op} leaves the operator objects unchanged")
        if op in done:
            for x, y in zip(res, done[op]):
                w.equal(x, y, f"repeating {op} gives the same result", dtype=False)
        done.setdefault(op, [x.clone() if isinstance(x, torch.Tensor) else x for x in res])


def algebra(w, d, real=False):
    """operator arithmetic returns new operators"""
    from acetn.model.pauli_matrix import PauliMatrix
    w.dtype = torch.float64 if real else torch.complex128
    dev = torch.device("cpu")
    ka, kb = w.choose("ka", ("X", "Y", "YY")), w.choose("kb", ("Z", "Y"))
    a = PauliMatrix(ka, w.dtype, dev, mat=w.tensor("a", d, d))
    b = PauliMatrix(kb, w.dtype, dev, mat=w.tensor("b", d, d))
    a0, b0 = a.mat.clone(), b.mat.clone()
    c = w.scalar("c")
    op = w.choose("op", ("add", "sub", "mul", "smul", "muls", "div", "neg", "imul", "imuls"))
    x = a
    if op == "add":
        x = a + b
    elif op == "sub":
        x = a - b
    elif op == "mul":
        x = a * b
    elif op == "smul":
        x = c * a
    elif op == "muls":
        x = a * c
    elif op == "div":
        x = a / c
    elif op == "neg":
        x = -a
    elif op == "imul":
        x *= b
    else:
        x *= c
    w.equal(a.mat, a0, f"{op} leaves its operands unchanged")
    w.equal(b.mat, b0, f"{op} leaves its operands unchanged")
    w.require(a.key == ka and b.key == kb, f"{op} leaves its operands unchanged")
    r = x.mat if hasattr(x, "mat") else x
    r0 = r.clone()
    r *= 2.                           # the result is a new matrix: changing it cannot reach the operands
    w.equal(a.mat, a0, f"the result of {op} is a new matrix")
    w.equal(b.mat, b0, f"the result of {op} is a new matrix")


Q = [dict(p=2, kind=k, where=x, length=2, real=r) for k, x, r in (("tensor", "each", False), ("object", "one", False), ("object", "each", True))]
T = [dict(p=2, kind=k, where=x, length=3, real=r) for k, x, r in (("tensor", "each", False), ("object", "one", True), ("object", "each", False))] + \
    [dict(p=3, kind=k, where=x, length=2, real=r) for k in ("tensor", "object") for x in ("each", "one") for r in (False, True)]
HARNESSES = [Harness("history", history, Q + T[:1], T,
                     "every sequence of 2 (3) operations; 2x2 cell, p = 2 (3); generic operators, some shared"),
             Harness("algebra", algebra, [dict(d=2), dict(d=2, real=True)], [dict(d=d, real=r) for d in (2, 3, 4) for r in (False, True)], "2x2 operators, all operations")]
