"""The built-in models return the documented Hamiltonians, observables and initial states."""
import torch
from ..harness import Harness
from . import util

DTYPES = ("float32", "float64", "complex64", "complex128")
X, Y, Z = [[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]


def make(w, name, dt, params):
    from acetn.ipeps.ipeps_config import ModelConfig
    from acetn.model.model_factory import model_factory
    w.dtype = dt
    return model_factory.create(ModelConfig(dtype=dt, device=torch.device("cpu"), dim=2, name=name, params=params))


def mat(w, rows, dt):
    with w.concrete():
        m = torch.tensor(rows, dtype=torch.complex128)
        return m.to(dt) if dt.is_complex else m.real.to(dt)


def two(w, a, dt):
    with w.concrete():
        m = torch.tensor(a, dtype=torch.complex128)
        m = torch.kron(m, m)
        return m.to(dt) if dt.is_complex else m.real.to(dt)


def get(x):
    return getattr(x, "mat", x)


def place(w):
    """any site of any cell: even/odd coordinates, and any bond from it"""
    x, y = w.choose("x", (0, 1, 3)), w.choose("y", (0, 1))
    return (x, y)


def number(w, name):
    """any real number; w.scalar is a positive one"""
    c = w.choose("s_" + name, (1., -1., 0., 0))
    return c * w.scalar(name) if c else c


def ising(w):
    from acetn.ipeps.bond import Bond
    dt = getattr(torch, w.choose("dtype", DTYPES))
    jz, hx = number(w, "jz"), number(w, "hx")
    m = make(w, "ising", dt, {"jz": jz, "hx": hx})
    s = place(w)
    k = w.choose("k", (0, 1, 2, 3))
    b = Bond(s, util.neighbour(s, k, 4, 3), k)
    for _ in range(2):
        w.equal(get(m.one_site_hamiltonian(s)), -1. * hx * mat(w, X, dt), "the field term -hx X", allow_zero=True)
        w.equal(get(m.two_site_hamiltonian(b)), -1. * jz * two(w, Z, dt), "the bond term -jz Z Z", allow_zero=True)
    o = m.one_site_observables(s)
    w.require(set(o) == {"sx", "sz"}, "the Ising observables")
    w.equal(get(o["sx"]), mat(w, X, dt), "sx is X")
    w.equal(get(o["sz"]), mat(w, Z, dt), "sz is Z")
    w.require(dict(m.two_site_observables(b)) == {}, "no two-site observables")
    w.require([float(v) for v in m.initial_site_state(s)] == [1., 0.], "the polarised state")


def heisenberg(w, given):
    from acetn.ipeps.bond import Bond
    dt = getattr(torch, w.choose("dtype", DTYPES))
    J = number(w, "J")
    m = make(w, "heisenberg", dt, {"J": J} if given else {})
    s = place(w)
    k = w.choose("k", (0, 1, 2, 3))
    b = Bond(s, util.neighbour(s, k, 4, 3), k)
    h = two(w, X, dt) + two(w, Y, dt) + two(w, Z, dt)
    w.equal(get(m.two_site_hamiltonian(b)), (0.25 * J * h) if given else 0.25 * h, "the bond term J S.S", allow_zero=True)
    w.require(m.one_site_hamiltonian(s) is None, "no one-site term")
    o = m.one_site_observables(s)
    sign = 1. if (s[0] + s[1]) % 2 == 0 else -1.
    w.require(set(o) == {"sx", "sz"}, "the Heisenberg observables")
    w.equal(get(o["sx"]), sign * mat(w, X, dt), "sx is the staggered X")
    w.equal(get(o["sz"]), sign * mat(w, Z, dt), "sz is the staggered Z")
    w.require(dict(m.two_site_observables(b)) == {}, "no two-site observables")
    w.require([float(v) for v in m.initial_site_state(s)] == ([1., 0.] if sign > 0 else [0., 1.]), "the Neel state")


def changed(w, name):
    """parameters are read when an operator is asked for, and only the named one changes"""
    from acetn.ipeps import Ipeps
    from acetn.ipeps.bond import Bond
    ps = {"ising": ("jz", "hx"), "heisenberg": ("J",)}[name]
    vals = {q: w.scalar(q + "0") for q in ps}
    with w.concrete():
        net = Ipeps(util.cfg(2, 2, 1, 1, 2, "float64", model={"name": name, "params": {q: 1. for q in ps}}))
    w.dtype = torch.float64
    net.set_model_params(**vals)
    models = []
    from acetn.measurement.measure import measure
    with util.patched(*util.patch_everywhere("measure", measure, lambda ipeps, model: models.append(model))):
        net.measure()
        q = w.choose("q", ps)
        vals[q] = w.scalar("new")
        net.set_model_params(**{q: vals[q]})
        net.measure()
    b = Bond((0, 0), (1, 0), 2)
    dt = torch.float64
    for m in models[1:]:
        if name == "ising":
            w.equal(get(m.one_site_hamiltonian((0, 0))), -1. * vals["hx"] * mat(w, X, dt), "the current field")
            w.equal(get(m.two_site_hamiltonian(b)), -1. * vals["jz"] * two(w, Z, dt), "the current coupling")
        else:
            w.equal(get(m.two_site_hamiltonian(b)), 0.25 * vals["J"] * (two(w, X, dt) + two(w, Y, dt) + two(w, Z, dt)), "the current coupling")


def default_state(w, dmax):
    """a model that defines only its bond term starts from the first basis state and has no other terms"""
    from acetn.model.model import Model
    from acetn.ipeps.ipeps_config import ModelConfig

    class Mine(Model):
        def two_site_hamiltonian(self, bond=None):
            return None
    d = w.choose("d", tuple(range(2, dmax + 1)))
    m = Mine(ModelConfig(dtype=torch.float64, device=torch.device("cpu"), dim=d, name="x", params={"a": 1}))
    s = place(w)
    w.require([float(v) for v in m.initial_site_state(s)] == [1.] + [0.] * (d - 1), "the first basis state")
    w.require(m.one_site_hamiltonian(s) is None and dict(m.one_site_observables(s)) == {} and dict(m.two_site_observables(None)) == {}, "nothing else")
    w.require((m.name, m.params, m.dtype, m.device, m.dim) == ("x", {"a": 1}, torch.float64, torch.device("cpu"), d), "the model's configuration")


HARNESSES = [Harness("ising", ising, [dict()], [dict()], "symbolic jz, hx; four dtypes; six sites of a 4x3 cell and all their bonds", max_paths=20000),
             Harness("heisenberg", heisenberg, [dict(given=g) for g in (True, False)], None, "symbolic J and its default; four dtypes; six sites of a 4x3 cell and all their bonds"),
             Harness("changed", changed, [dict(name=n) for n in ("ising", "heisenberg")], None, "parameters set, then one changed"),
             Harness("default_state", default_state, [dict(dmax=4)], [dict(dmax=8)], "physical dimension up to 4 (8)")]
