"""A custom model and its parameters belong to the network they were set on."""
import torch
from ..harness import Harness
from . import util

OPS = ("set first", "set second", "param", "two params", "use other", "new network")
NAMES = (None, "foo", "Foo", "bar")


def classes():
    from acetn.model.model import Model
    from acetn.model.pauli_matrix import pauli_matrices

    class First(Model):
        def two_site_hamiltonian(self, bond=None):
            X, Y, Z, I = pauli_matrices(self.dtype, self.device)
            return self.params.get("u") * X * Z

    class Second(Model):
        def two_site_hamiltonian(self, bond=None):
            X, Y, Z, I = pauli_matrices(self.dtype, self.device)
            return self.params.get("v") * Z * X + self.params.get("u") * I * I
    return First, Second


def bond_term(w, name, ps):
    """the Hamiltonian on every bond of a network with this model and these parameters"""
    with w.concrete():
        t = lambda a, b: torch.kron(torch.tensor(a, dtype=torch.float64), torch.tensor(b, dtype=torch.float64))
        X, Z, I = [[0, 1], [1, 0]], [[1, 0], [0, -1]], [[1, 0], [0, 1]]
        xz, zx, ii, zz, ss = t(X, Z), t(Z, X), t(I, I), t(Z, Z), t(X, X) + t(Z, Z)
        ss[0, 3] -= 1.
        ss[3, 0] -= 1.
        ss[1, 2] += 1.
        ss[2, 1] += 1.
    return {"First": lambda: ps["u"] * xz, "Second": lambda: ps["v"] * zx + ps["u"] * ii,
            "IsingModel": lambda: -1. * ps["jz"] * zz, "HeisenbergModel": lambda: 0.25 * ps["J"] * ss}[name]()


class Watch:
    """the model a network hands to measuring and evolving"""

    def __init__(self):
        self.got = []

    def patch(self, nets):
        from acetn.measurement.measure import measure
        from acetn.evolution.evolve import evolve
        from acetn.renormalization.ctmrg import ctmrg
        return util.patched(*util.patch_everywhere("measure", measure, lambda ipeps, model: self.got.append(model)),
                            *util.patch_everywhere("evolve", evolve, lambda ipeps, dtau, steps, model, config: self.got.append(model)),
                            *util.patch_everywhere("ctmrg", ctmrg, lambda ipeps, config: None))

    def model(self, net, how, **kw):
        self.got.clear()
        if how == "measure":
            net.measure(**kw)
        else:
            net.evolve(0.1, 1, **kw)
        assert len(self.got) == 1
        return self.got[0]


def histories(w, length, start, ops, off=True):
    from acetn.ipeps import Ipeps
    from acetn.model import model_factory as mf
    from acetn.model.models import models
    M1, M2 = classes()
    builtin = dict(models)
    watch = Watch()
    registry = mf.model_factory._models if hasattr(mf.model_factory, "_models") else models
    saved = dict(registry)
    try:
        with w.concrete():
            cfg = [util.cfg(2, 2, 1, 1, 2, "float64", model={"name": n, "params": {"J": 1., "jz": 1., "hx": 2.}}) for n in start]
            nets = [Ipeps(c) for c in cfg]
            for n in nets:
                n.initialize_site_tensors(lambda s: [1., 0.])
        want = [(builtin[n], dict(c["model"]["params"])) for n, c in zip(start, cfg)]
        dicts = [(c["model"]["params"], dict(c["model"]["params"])) for c in cfg]
        with watch.patch(nets):
            for i in range(length):
                op = w.choose(f"op{i}", ops)
                j = w.choose(f"net{i}", tuple(range(len(nets))))
                net = nets[j]
                if op.startswith("set"):
                    cls = M1 if op == "set first" else M2
                    ps = {"u": w.scalar(f"u{i}"), "v": w.scalar(f"v{i}")}
                    dicts.append((ps, dict(ps)))
                    nm = w.choose(f"name{i}", NAMES)
                    net.set_model(cls, ps) if nm is None else net.set_model(cls, ps, name=nm)
                    want[j] = (cls, dict(ps))
                elif op in ("param", "two params"):
                    # any value, and switching the term off
                    new = {w.choose(f"key{i}", ("u", "J")): 0. if off and w.flip(f"off{i}") else w.scalar(f"p{i}")}
                    if op == "two params":
                        new["v"] = w.scalar(f"q{i}")
                    net.set_model_params(**new)
                    want[j] = (want[j][0], {**want[j][1], **new})
                elif op == "use other":
                    # a model instance passed to one call is used by that call only
                    from acetn.ipeps.ipeps_config import ModelConfig
                    m = M2(ModelConfig(dtype=torch.float64, device=torch.device("cpu"), dim=2, name="x", params={"u": 7., "v": 1.}))
                    w.require(watch.model(net, w.choose(f"how{i}", ("measure", "evolve")), model=m) is m, "the model given to a call is the one used")
                else:
                    with w.concrete():
                        c = util.cfg(2, 2, 1, 1, 2, "float64", model={"name": start[0], "params": {"J": 3., "jz": 1., "hx": 2.}})
                        nets.append(Ipeps(c))
                        nets[-1].initialize_site_tensors(lambda s: [1., 0.])
                    want.append((builtin[start[0]], dict(c["model"]["params"])))
                    dicts.append((c["model"]["params"], dict(c["model"]["params"])))
                for n, (cls, ps) in zip(nets, want):
                    for how in ("measure", "evolve"):
                        m = watch.model(n, how)
                        w.require(type(m) is cls, "every network uses its own model")
                        w.require(set(m.params) == set(ps), "the parameters of the network's model")
                        w.equal(m.two_site_hamiltonian(n.bond_list[0]).mat, bond_term(w, cls.__name__, ps), "the Hamiltonian of the network's own model",
                                allow_zero=any(type(q) is float and q == 0. for q in ps.values()))
                        w.require(m.dim == 2 and m.dtype == torch.float64, "the model's dimension and dtype")
                for d, old in dicts:
                    w.require(set(d) == set(old) and all(d[q] is old[q] for q in d), "the parameters given by the user are not modified")
    finally:
        registry.clear()
        registry.update(saved)


def registry(w):
    """names, errors and the requirement on model classes"""
    from acetn.ipeps import Ipeps
    from acetn.model import model_factory as mf
    from acetn.model.models import models
    M1, M2 = classes()
    saved = dict(mf.model_factory._models)
    try:
        case = w.choose("case", ("unknown", "none", "not a model", "listed", "factory"))
        with w.concrete():
            c = util.cfg(2, 2, 1, 1, 2, "float64", model={"name": "nosuch", "params": {}} if case == "unknown" else {"params": {}} if case == "none" else None)
            net = Ipeps(c)
        kind = None
        try:
            if case in ("unknown", "none"):
                net.measure()
            elif case == "not a model":
                net.set_model(dict, {})
            elif case == "listed":
                net.set_model(M1, {}, name="Mine")
                w.require("mine" in mf.model_factory.list_registered(), "custom models are listed under their lower-case name")
            else:
                mf.model_factory.register("shared", M2)
                with w.concrete():
                    other = Ipeps(util.cfg(2, 2, 1, 1, 2, "float64", model={"name": "shared", "params": {"u": 1}}))
                watch = Watch()
                with watch.patch([other]):
                    w.require(type(watch.model(other, "measure")) is M2, "a registered model can be named in the configuration")
        except Exception as e:
            kind = type(e)
        exp = {"unknown": KeyError, "none": ValueError, "not a model": TypeError}.get(case)
        w.require(kind is exp, "missing, unknown and unsuitable models are rejected")
        if case == "not a model":
            w.require(net.config.model.name == "ising", "a rejected model changes nothing")
    finally:
        mf.model_factory._models.clear()
        mf.model_factory._models.update(saved)


HARNESSES = [Harness("histories", histories, [dict(length=2, start=("ising", "heisenberg"), ops=OPS)],
                     [dict(length=3, start=("ising", "heisenberg"), ops=("set first", "set second", "param", "new network"), off=False),
                      dict(length=2, start=("heisenberg", "heisenberg"), ops=OPS)],
                     "every sequence of 2 (3) operations on two networks; symbolic parameters", max_paths=60000, split=(("op0", len(OPS)), ("net0", 2))),
             Harness("registry", registry, [dict()], None, "error cases")]
OUTSIDE = ("re-registering a built-in model's name, or a name other networks refer to only through the shared registry, replaces that "
           "entry for them: the registry is global by design")
