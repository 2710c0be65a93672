"""Separate networks never share state: every history of creating, copying, loading and modifying networks."""
import copy
import torch
from ..harness import Harness
from . import util

MAKE = ("new", "from", "copy", "to", "load", "site")
CHANGE = ("tensor", "inplace", "corner", "edge list", "chi", "dims", "params", "param", "options", "bonds", "site list", "init", "load", "model", "result")


def networks(w, real=False, second=True):
    from acetn.ipeps import Ipeps
    from acetn.ipeps.site_tensor import SiteTensor
    D, p, chi = 2, 3, 4
    w.dtype = torch.float64 if real else torch.complex128
    dt = "float64" if real else "complex128"
    user = util.cfg(2, 2, chi, D, p, dt, ctmrg={"steps": 3}, evolution={"als_niter": 7})
    user0 = copy.deepcopy(user)
    files = util.Files(w)
    with files.patch():
        with w.concrete():
            net = Ipeps(user)
        w.require(user == user0, "the user's configuration is not modified")
        util.fill(w, net, chi, D, p)
        old = util.state(net)
        how = w.choose("make", MAKE)
        if how == "new":
            with w.concrete():
                other = Ipeps(user)
            util.fill(w, other, chi, D, p, "o")
        elif how == "from":
            other = Ipeps(user, net)
        elif how == "copy":
            other = net.copy()
        elif how == "to":
            other = net.to(dtype=net.dtype)
        elif how == "load":
            net.save(files.path("a.pt"))
            util.same_state(w, net, old, "saving leaves the network as it was")
            with w.concrete():
                other = Ipeps(user)
            other.load(files.path("a.pt"))
        else:                        # site by site
            with w.concrete():
                other = Ipeps(user)
            for s in net.site_list:
                other[s] = net[s].copy()
        util.same_state(w, net, old, f"making another network ({how}) leaves the first as it was")
        w.require(user == user0, "the user's configuration is not modified")
        if how != "new":
            util.same_state(w, other, (old[0], {}), f"the other network ({how}) equals its original")
            w.require(set(other.site_list) == set(net.site_list) and set(other.bond_list) == set(net.bond_list)
                      and dict(other.dims) == dict(net.dims), "same lattice and dimensions")
        # now one of the two is modified; the other must not notice
        a, b = (net, other) if w.flip("which") else (other, net)
        keep = util.state(b)
        op = w.choose("change", CHANGE)
        s = a.site_list[w.choose("site", (0, 3)) if op in ("tensor", "inplace", "corner") else 0]
        T = w.tensor("T", D, D, D, D, p)
        if op == "tensor":
            a[s]["A"] = T
            val = T.clone()
            T.mul_(2.)
            w.equal(a[s]["A"], val, "a network keeps its own copy of an assigned tensor")
        elif op == "inplace":
            a[s]["A"].mul_(2.)
            a[s]["C"][1].mul_(2.)
            a[s]["E"][2].mul_(2.)
        elif op == "corner":
            a[s]["C"][2] = w.tensor("X", chi, chi)
            a[s]["E"][0] = w.tensor("Y", chi, chi, D, D)
        elif op == "edge list":
            a[s]["E"].reverse()
        elif op == "chi":
            if hasattr(a, "set_chi"):
                a.set_chi(5)
            else:
                a.dims["chi"] = 5
        elif op == "dims":
            a.dims["bond"] = 3
            a[s].dims["chi"] = 6
        elif op == "params" and hasattr(a, "set_model_params"):
            a.set_model_params(jz=0.25, extra=1.)
        elif op == "param" and hasattr(a, "config"):
            a.config.model.params["hx"] = 0.5
        elif op == "options" and hasattr(a, "config"):
            a.config.ctmrg.steps = 1
            a.config.evolution.als_niter = 1
            a.config.TN.dims["phys"] = 4
        elif op == "bonds":
            a.bond_list.reverse()
            a.bond_list.pop()
        elif op == "site list":
            a.site_list.reverse()
        elif op == "init":
            with w.concrete():
                a.initialize_site_tensors(lambda s: [0., 1., 0.])
        elif op == "load":
            b.save(files.path("b.pt"))
            util.same_state(w, b, keep, "saving leaves the network as it was")
            a.load(files.path("b.pt"))
        elif op == "model" and hasattr(a, "set_model"):
            from acetn.model.models import IsingModel
            a.set_model(type("M", (IsingModel,), {}), {"jz": 2., "hx": 1.}, name="isolated")
        util.same_state(w, b, keep, f"changing one network ({op}) leaves the other ({how}) as it was")
        w.require(user == user0, "the user's configuration is not modified")


HARNESSES = [Harness("networks", networks, [dict(real=r) for r in (False, True)], None,
                     "two networks on a 2x2 cell, D = 2, p = 3, chi = 4: every way of making the second, every modification of either; generic tensors",
                     seeds=6, max_paths=20000, split=(("make", len(MAKE)),))]
ASSUMPTIONS = ["serialisation stores every tensor exactly"]
