"""Saving and loading restores every tensor exactly."""
import torch
from ..harness import Harness
from . import util


def _load(w, net, other, files):
    """tensors of `other` after loading what `net` saved"""
    old = util.state(net)
    net.save(files.path("a.pt"))
    util.same_state(w, net, old, "saving leaves the network as it was")
    other.load(files.path("a.pt"))
    util.same_state(w, net, old, "loading leaves the saved network as it was")
    return old


def roundtrip(w, nx, ny, real_from, real_to, D, chi, p, D2, chi2, single=False):
    """save, then load into a fresh or used object whose configuration names other dimensions"""
    from acetn.ipeps import Ipeps
    net = util.network(w, nx, ny, chi, D, p, real=real_from)
    if w.flip("copy"):
        net_ = net.copy()            # what is saved may itself be a copy
    else:
        net_ = net
    dt = "float32" if single else ("float64" if real_to else "complex128")
    files = util.Files(w)
    with files.patch():
        with w.concrete():
            other = Ipeps(util.cfg(nx, ny, chi2, D2, p, dt))
        used = w.flip("used")
        if used:
            util.fill(w, other, chi2, D2, p, "o")
        d0 = dict(other.dims)
        old = _load(w, net_, other, files)
        tt = getattr(torch, dt)
        n = 0
        for s in net.site_list:
            for k in ("A", "C", "E"):
                xs = [other[s][k]] if k == "A" else other[s][k]
                ys = [net_[s][k]] if k == "A" else net_[s][k]
                w.require(len(xs) == len(ys), "every boundary tensor is restored")
                for x, y in zip(xs, ys):
                    w.require(x.dtype == tt, "tensors have the dtype of the loading network")
                    w.equal(x, y.to(tt), f"{k} tensors are restored exactly")
                    n += 1
            w.require(dict(other[s].dims) == dict(net_[s].dims), "each site keeps its saved dimensions")
            w.require(other[s].dtype == tt, "later assignments use the dtype of the loading network")
        w.require(n == 9 * nx * ny, "every tensor is restored")
        w.require(other.site_states_initialized, "a loaded network has a state")
        w.require(other.dtype == tt and other.nx == nx and other.ny == ny and set(other.site_list) == set(net.site_list)
                  and set(other.bond_list) == set(net.bond_list), "the loading network keeps its own settings and lattice")
        # once loaded, the file and the network are independent
        s0 = net.site_list[-1]
        other[s0]["A"].mul_(2.)
        with w.concrete():
            third = Ipeps(util.cfg(nx, ny, chi2, D2, p, dt))
        third.load(files.path("a.pt"))
        w.equal(third[s0]["A"], net_[s0]["A"].to(tt), "a file can be loaded again")


Q = [dict(nx=2, ny=2, real_from=False, real_to=False, D=2, chi=3, p=2, D2=3, chi2=2), dict(nx=3, ny=2, real_from=True, real_to=True, D=2, chi=2, p=3, D2=2, chi2=2),
     dict(nx=2, ny=3, real_from=True, real_to=False, D=3, chi=2, p=2, D2=1, chi2=4)]
T = Q + [dict(nx=x, ny=y, real_from=r, real_to=r, D=D, chi=c, p=2, D2=2, chi2=3) for x, y in ((2, 2), (3, 3), (4, 2)) for r in (True, False) for D in (1, 2, 3) for c in (1, 4)]
HARNESSES = [Harness("roundtrip", roundtrip, T, T + [dict(nx=x, ny=y, real_from=r, real_to=not r, D=2, chi=6, p=4, D2=4, chi2=9) for x, y in ((5, 2), (2, 5), (4, 4)) for r in (True, False)],
                     "cells up to 4x2 and 3x3 (4x4, 5x2), D <= 3 (4), chi <= 4 (9), p <= 3 (4); fresh and used loading networks; generic tensors", seeds=3)]
ASSUMPTIONS = ["torch.save and torch.load store every tensor exactly (on the real kernels the real functions are used)"]
