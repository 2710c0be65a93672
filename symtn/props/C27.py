"""Initial tensors: the requested product state plus noise, and the boundary tensors of the bare cell."""
import torch
from torch import einsum, conj
from ..harness import Harness
from . import util

DEV = torch.device("cpu")


def basis(w, shape, at, dt):
    with w.concrete():
        m = torch.zeros(shape, dtype=dt)
        m[at] = 1.
        return m


def product(w, st, D, p, dt):
    """the product state as a site tensor: the first entry of every bond carries the physical vector"""
    out = None
    for n, x in enumerate(st):
        t = x * basis(w, (D, D, D, D, p), (0, 0, 0, 0, n), dt)
        out = t if out is None else out + t
    return out


def boundary(w, t, D, label):
    """corners: the double layer with the two outer legs joined; edges: with the outer leg joined"""
    A = t["A"]
    n = lambda m: m % 4
    w.require(len(t["C"]) == 4 and len(t["E"]) == 4, f"{label}: four corners and four edges")
    for k in range(4):
        ket = list("abcd")            # leg j of the ket is ket[j], of the bra BRA[j]
        bra = [x.upper() for x in ket]
        bra[k], bra[n(k + 1)] = ket[k], ket[n(k + 1)]
        i, j = n(k + 3), n(k + 2)
        c = einsum(f"{''.join(ket)}p,{''.join(bra)}p->{ket[i]}{bra[i]}{ket[j]}{bra[j]}", A, conj(A)).reshape(D * D, D * D)
        w.proportional(t["C"][k], c, f"{label}: corner tensors")
        w.unit_norm(t["C"][k], f"{label}: normalised corner tensors")
        bra = [x.upper() for x in ket]
        bra[n(k + 1)] = ket[n(k + 1)]
        i, j, m = k, n(k + 2), n(k + 3)
        e = einsum(f"{''.join(ket)}p,{''.join(bra)}p->{ket[i]}{bra[i]}{ket[j]}{bra[j]}{ket[m]}{bra[m]}", A, conj(A)).reshape(D * D, D * D, D, D)
        w.proportional(t["E"][k], e, f"{label}: edge tensors")
        w.unit_norm(t["E"][k], f"{label}: normalised edge tensors")


def fresh(w, D, p, dt, full):
    """a new site tensor for a given state"""
    from acetn.ipeps.site_tensor import SiteTensor
    dt = getattr(torch, dt)
    w.dtype = dt
    n = p if full else 1
    st = [w.scalar(f"s{i}") for i in range(n)]
    given = list(st)
    dims = {"bond": D, "phys": p, "chi": D * D + 1}
    # the boundary of a computed tensor is decided in `boundary_of`
    with util.patched((SiteTensor, "initialize_corner_tensors", lambda self: None), (SiteTensor, "initialize_edge_tensors", lambda self: None)):
        t = SiteTensor(dims, site_state=st, dtype=dt, device=DEV)
    r = w.randoms
    w.require(len(r) == 1 and tuple(r[0].shape) == (D, D, D, D, p), "one random tensor is drawn")
    w.proportional(t["A"], product(w, given, D, p, dt) + 1e-2 * r[0].to(dt), "the state plus a hundredth of uniform noise")
    w.unit_norm(t["A"], "the site tensor is normalised")
    w.require(t["A"].dtype == dt, "the requested dtype")
    w.require(all(x is y for x, y in zip(st, given)) and len(st) == len(given), "the given state is not modified")


def boundary_of(w, D, p, dt, chi):
    """the boundary a new site tensor starts with"""
    from acetn.ipeps.site_tensor import SiteTensor
    dt = getattr(torch, dt)
    w.dtype = dt
    A = w.tensor("A", D, D, D, D, p)
    seen = []

    def init(self, site_state=[1.], noise=0.0):
        seen.append((site_state, noise))
        self["A"] = A
    st = [0.6, 0.8]
    with util.patched((SiteTensor, "initialize_site_tensor", init)):
        t = SiteTensor({"bond": D, "phys": p, "chi": chi}, site_state=st, dtype=dt, device=DEV)
    w.require(seen == [(st, 1e-2)], "the state and the noise of a new tensor")
    w.equal(t["A"], A, "the site tensor is kept")
    boundary(w, t, D, "initial boundary")
    w.require(all(x.dtype == dt for x in t["C"] + t["E"]), "the boundary has the requested dtype")


def noise(w, D, p, dt):
    """initialising again with another state and noise"""
    from acetn.ipeps.site_tensor import SiteTensor
    dt = getattr(torch, dt)
    w.dtype = dt
    with w.concrete():
        t = SiteTensor({"bond": D, "phys": p, "chi": 4}, dtype=dt, device=DEV)
    t["A"] = w.tensor("A", D, D, D, D, p)
    t["C"] = [w.tensor(f"C{k}", 4, 4) for k in range(4)]
    t["E"] = [w.tensor(f"E{k}", 4, 4, D, D) for k in range(4)]
    C, E = list(t["C"]), list(t["E"])
    st = [w.scalar(f"s{i}") for i in range(p)]
    form = w.choose("noise", ("none", "some"))
    c = w.scalar("c")
    k0 = len(w.randoms)
    if form == "none":
        t.initialize_site_tensor(st)
        w.proportional(t["A"], product(w, st, D, p, dt), "without noise the tensor is the product state")
    else:
        t.initialize_site_tensor(st, noise=c)
        w.proportional(t["A"], product(w, st, D, p, dt) + c * w.randoms[k0].to(dt), "the state plus the requested noise")
    w.unit_norm(t["A"], "the site tensor is normalised")
    for a, b in zip(t["C"] + t["E"], C + E):
        w.equal(a, b, "the boundary is left alone")
    t["A"] = w.tensor("B", D, D, D, D, p)
    which = w.choose("boundary", ("corner", "edge"))
    A = t["A"]
    if which == "corner":
        t.initialize_corner_tensors()
        same = list(zip(t["E"], E))
    else:
        t.initialize_edge_tensors()
        same = list(zip(t["C"], C))
    w.equal(t["A"], A, "initialising the boundary keeps the site tensor")
    for a, b in same:
        w.equal(a, b, f"initialising the {which} tensors changes only those")
    t.initialize_corner_tensors()
    t.initialize_edge_tensors()
    boundary(w, t, D, "renewed boundary")


def random(w, D, p, chi, dt):
    from acetn.ipeps.site_tensor import SiteTensor
    dt = getattr(torch, dt)
    w.dtype = dt
    with w.concrete():
        t = SiteTensor({"bond": D, "phys": p, "chi": chi}, dtype=dt, device=DEV)
    t["A"] = w.tensor("A", D, D, D, D, p)
    A = t["A"]
    t.initial_condition = "random"
    k0 = len(w.randoms)
    t.initialize_corner_tensors()
    k1 = len(w.randoms)
    t.initialize_edge_tensors()
    r = w.randoms
    w.require(k1 - k0 == 4 and len(r) - k1 == 4, "every random boundary tensor is drawn on its own")
    for i in range(4):
        w.equal(t["C"][i], r[k0 + i].to(dt), "random corners")
        w.equal(t["E"][i], r[k1 + i].to(dt), "random edges")
        w.require(tuple(t["C"][i].shape) == (chi, chi) and tuple(t["E"][i].shape) == (chi, chi, D, D), "random boundary tensors have the boundary dimension")
    w.equal(t["A"], A, "the site tensor is kept")


def cell(w, nx, ny, D, p, dt):
    """every site of a fresh network gets its own state and its own noise"""
    from acetn.ipeps import Ipeps
    w.dtype = getattr(torch, dt)
    with w.concrete():
        net = Ipeps(util.cfg(nx, ny, D * D, D, p, dt))
    states = {s: [w.scalar(f"s{s[0]}{s[1]}{i}") for i in range(p)] for s in net.site_list}
    if w.flip("again"):
        util.fill(w, net, D * D, D, p)
    k0 = len(w.randoms)
    from acetn.ipeps.site_tensor import SiteTensor
    # boundary tensors are decided in `boundary_of`
    with util.patched((SiteTensor, "initialize_corner_tensors", lambda self: None), (SiteTensor, "initialize_edge_tensors", lambda self: None)):
        net.initialize_site_tensors(lambda s: states[tuple(s)])
    r = w.randoms[k0:]
    w.require(sorted(net.site_list) == sorted(states), "the sites of the cell")
    used = []
    for s in net.site_list:
        prod = product(w, states[s], D, p, w.dtype)
        w.one_of(net[s]["A"], [prod + 1e-2 * x.to(w.dtype) for x in r], "every site carries its own state")
        w.require(net[s].dims["bond"] == D and net[s].dims["phys"] == p and net[s].dtype == w.dtype, "dimensions and dtype")
    w.require(len(r) == nx * ny, "every site has its own noise")
    w.require(net.site_states_initialized, "the network has a state")


def default(w, D, p, dt):
    """a network without a model state is polarised along the first basis state"""
    from acetn.ipeps.site_tensor import SiteTensor
    from acetn.ipeps.tensor_network import TensorNetwork
    w.dtype = getattr(torch, dt)
    conf = util.Obj(nx=2, ny=2, dims={"bond": D, "phys": p, "chi": D * D})
    k0 = len(w.randoms)
    with util.patched((SiteTensor, "initialize_corner_tensors", lambda self: None), (SiteTensor, "initialize_edge_tensors", lambda self: None)):
        net = TensorNetwork(None, conf, w.dtype, DEV)
    r = w.randoms[k0:]
    for s in net.site_list:
        w.one_of(net[s]["A"], [basis(w, (D, D, D, D, p), (0,) * 5, w.dtype) + 1e-2 * x.to(w.dtype) for x in r], "the polarised product state plus noise")


DT = ("float64", "complex128")
HARNESSES = [Harness("fresh", fresh, [dict(D=d, p=q, dt=t, full=f) for d in (1, 2, 3) for q in (2, 3) for t in DT + ("float32", "complex64") for f in (True, False)], None,
                     "D <= 3, p <= 3; symbolic states and noise"),
             Harness("boundary_of", boundary_of, [dict(D=2, p=2, dt="complex128", chi=5), dict(D=2, p=1, dt="float32", chi=2)] + [dict(D=d, p=q, dt=t, chi=c) for d in (1, 2, 3) for q in (1, 2, 3) for t in DT for c in (1, 9)], None, "boundary of a new site tensor"),
             Harness("noise", noise, [dict(D=2, p=2, dt=t) for t in DT] + [dict(D=1, p=3, dt="float64"), dict(D=3, p=1, dt="complex128")], [dict(D=d, p=q, dt=t) for d in (1, 2, 3) for q in (1, 2, 3) for t in DT], "re-initialisation; symbolic noise size"),
             Harness("random", random, [dict(D=d, p=2, chi=c, dt=t) for d in (1, 2) for c in (1, 3, 5) for t in DT], None, "random boundary"),
             Harness("cell", cell, [dict(nx=2, ny=3, D=1, p=2, dt="float64"), dict(nx=2, ny=2, D=2, p=2, dt="complex128")],
                     [dict(nx=x, ny=y, D=d, p=q, dt=t) for x, y in ((2, 2), (3, 2)) for d in (1, 2) for q in (2, 3) for t in DT], "cells up to 3x2"),
             Harness("default", default, [dict(D=d, p=q, dt=t) for d in (1, 2) for q in (1, 2, 3) for t in DT], None, "networks without a state")]
