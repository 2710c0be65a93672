"""The unit cell is a periodic square lattice and its bond list holds every nearest-neighbour bond exactly once."""
import torch
from ..harness import Harness
from . import util

STEP = [(-1, 0), (0, 1), (1, 0), (0, -1)]


def count(pred, seq):
    """how many elements satisfy a (possibly symbolic) predicate"""
    from ..paths import SymBool, SymInt
    vals = [pred(x) for x in seq]
    if any(isinstance(v, SymBool) for v in vals):
        from ..z3env import z3
        zs = [v.z if isinstance(v, SymBool) else z3.BoolVal(bool(v)) for v in vals]
        return SymInt(z3.Sum([z3.If(z, 1, 0) for z in zs] + [z3.IntVal(0)]))
    return sum(1 for v in vals if v)


def both(*cs):
    """conjunction of (possibly symbolic) conditions without branching"""
    from ..paths import SymBool
    if any(isinstance(c, SymBool) for c in cs):
        from ..z3env import z3
        return SymBool(z3.And([c.z if isinstance(c, SymBool) else z3.BoolVal(bool(c)) for c in cs]))
    return all(cs)


def lattice(w, nmax, how):
    from acetn.ipeps.tensor_network import TensorNetwork
    from acetn.ipeps import Ipeps
    nx, ny = w.integer("nx", 2, nmax), w.integer("ny", 2, nmax)
    if how in ("lists", "ints"):
        # "lists": the sizes stay solver variables inside the construction
        net = util.Obj(nx=nx, ny=ny) if how == "lists" else util.Obj(nx=int(nx), ny=int(ny))
        bonds, sites = TensorNetwork.build_bond_list(net), TensorNetwork.build_site_list(net)
        cx, cy = int(nx), int(ny)
    else:
        cx, cy = int(nx), int(ny)
        with w.concrete():
            net = Ipeps(util.cfg(cx, cy, 1, 1, 1))
            if how == "copy":
                net = net.copy()
            elif how == "reinit":
                net.initialize_site_tensors(lambda s: [1.])
            elif how == "passed":
                net = Ipeps(util.cfg(cx, cy, 1, 1, 1), net)
        w.require(hasattr(net, "bond_list") and hasattr(net, "site_list"), "every network has its sites and bonds")
        bonds, sites = net.bond_list, net.site_list
    x, y = w.integer("x", 0, cx - 1), w.integer("y", 0, cy - 1)
    here = lambda s: both(s[0] == x, s[1] == y)
    w.require(count(here, sites) == 1, "every coordinate of the cell is one site")
    w.require(len(sites) == cx * cy and all(0 <= a < cx and 0 <= b < cy for a, b in sites), "no other sites")
    w.require(len(bonds) == 2 * cx * cy, "two bonds per site")
    w.require(count(lambda b: here(b.s1), bonds) + count(lambda b: here(b.s2), bonds) == 4, "four bonds end at every site")
    for b in bonds:
        s1, s2, k = b
        w.require((s1, s2, k) == (b.s1, b.s2, b.k) and isinstance(b.s1, tuple) and isinstance(b.s2, tuple), "a bond unpacks to its sites and direction")
        w.require(k in (0, 1, 2, 3) and s2 == util.neighbour(s1, k, cx, cy), "a bond points from its first to its second site")
        w.require(s1 in sites and s2 in sites, "bonds connect sites of the cell")
        w.require(hash(b) == hash(type(b)(list(s1), list(s2), k)) and b == type(b)(list(s1), list(s2), k), "bonds compare by value")
    # leg k of the chosen site is covered by exactly one bond, in one of its two orientations
    for k in range(4):
        from_here = count(lambda b: both(here(b.s1), b.k == k), bonds)
        to_here = count(lambda b: both(here(b.s2), b.k == (k + 2) % 4), bonds)
        w.require(from_here + to_here == 1, "every leg of every site belongs to exactly one bond")
    if how not in ("lists", "ints"):
        for s in sites:
            w.require(net[s] is net[s] and tuple(net[s]["A"].shape) == (1, 1, 1, 1, 1), "every site has a tensor")
        w.require(len({id(net[s]) for s in sites}) == len(sites), "no two sites share a tensor object")
        for bad in ((cx, 0), (0, cy), (-1, 0)):
            try:
                net[bad]
                w.require(False, "a coordinate outside the cell has no site")
            except ValueError:
                pass


def directions(w):
    from acetn.model.model import Model
    from acetn.ipeps.bond import Bond
    k = w.choose("k", (0, 1, 2, 3))
    x, y = w.integer("x", 1, 5), w.integer("y", 1, 5)
    b = Bond((int(x), int(y)), util.neighbour((int(x), int(y)), k, 7, 7), k)
    d = Model.bond_direction(b)
    axis, sign = "xy".index(d[1]), {"+": 1, "-": -1}[d[0]]
    w.require(b.s2[axis] - b.s1[axis] == sign and b.s2[1 - axis] == b.s1[1 - axis], "the bond direction names the step between its sites")


def permutation(w, D, p):
    """the tensor seen from a leg: that leg comes first, the others follow clockwise"""
    from acetn.evolution.tensor_update import TensorUpdater
    net = util.network(w, 2, 2, 1, D, p)
    s = w.choose("s", net.site_list)
    k = w.choose("k", (0, 1, 2, 3))
    t = net[s]["A"]
    a = net[s].bond_permute(k)
    from torch import einsum
    want = einsum("lurdp->" + "".join("lurd"[(k + i) % 4] for i in range(4)) + "p", t)
    w.equal(a, want, "the site tensor seen from leg k")
    w.equal(net[s].bond_permute(k + 4), want, "directions are counted modulo four")
    w.equal(net[s]["A"], t, "looking at a tensor does not change it")


HARNESSES = [Harness("lattice", lattice, [dict(nmax=3, how="lists"), dict(nmax=6, how="ints"), dict(nmax=4, how="network"), dict(nmax=3, how="copy"), dict(nmax=3, how="reinit"), dict(nmax=3, how="passed")],
                     [dict(nmax=5, how="lists"), dict(nmax=14, how="ints"), *(dict(nmax=6, how=h) for h in ("network", "copy", "reinit", "passed"))],
                     "2 <= nx, ny <= 6 (14); every coordinate (symbolic) of the cell", max_paths=20000),
             Harness("directions", directions, [dict()], [dict()], "all four directions, interior coordinates"),
             Harness("permutation", permutation, [dict(D=2, p=2)], [dict(D=d, p=q) for d in (2, 3) for q in (1, 2, 3)], "all sites and legs")]
