"""Simple update: weighted pair, exact gate, leading singular vectors, weights of that bond only."""
import itertools
import torch
from torch import einsum
from ..harness import Harness, Violated
from . import util


def leg_weights(net, lam, s, skip):
    out = []
    for m in range(4):
        if m == skip:
            out.append(None)
            continue
        b = [b for b in lam if (b.s1 == s and b.k == m) or (b.s2 == s and (b.k + 2) % 4 == m)]
        if len(b) != 1:
            raise Violated("every leg of a site belongs to exactly one bond")
        out.append(lam[b[0]])
    return out


def weighted(A, ws):
    ops, sub = [A], ["lurdp"]
    for m, x in enumerate(ws):
        if x is not None:
            ops.append(x)
            sub.append("lurd"[m])
    return einsum(",".join(sub) + "->lurdp", *ops)


def sub_leg(k, c, rest):
    s = list(rest)
    s[k] = c
    return "".join(s)


def inverse(ws):
    return [None if x is None else 1 / x for x in ws]


def isometry(w, Q, R, A, ws, k, D, p):
    """Q as a tensor with the legs of A (the bond leg k replaced by the column index), if Q R = A"""
    n = Q.shape[1]
    rest = [m for m in range(4) if m != k]
    # the layout is a matter of convention: any assignment of rows to legs with Q R = A is one
    first = [(k + 2) % 4, (k + 3) % 4, (k + 1) % 4], [(k + 3) % 4, (k + 2) % 4, (k + 1) % 4]
    err = None
    for perm in [x for x in first] + [x for x in itertools.permutations(rest) if list(x) not in first]:
        q = Q.reshape(D, D, D, n)
        inv = [list(perm).index(m) for m in rest]
        q = q.permute(*inv, 3)
        try:
            t = einsum(f"abcn,nxp->abcxp", q, R.reshape(n, D, p))
            pos = [0, 1, 2]
            pos.insert(k, 3)
            t = w.reduce(t.permute(*pos, 4))
            if not w.symbolic:
                # entries spread over decades by the weights: compare what remains without them
                t, want = weighted(t, inverse(ws)), weighted(A, inverse(ws))
            else:
                want = A
            w.equal(t, want, "the decomposed tensor is the site tensor with the weights of its other bonds")
            return q
        except Violated as e:
            err = err or e
    raise err


def simple(w, k, D, p, real=False, site=(1, 0), nx=2, ny=2):
    from acetn.evolution.simple_update import SimpleUpdater
    from acetn.ipeps.bond import Bond
    net = util.network(w, nx, ny, 1, D, p, real=real)
    bonds = []
    bond = None
    for b in net.bond_list:
        if k in (0, 3):
            b = Bond(b.s2, b.s1, (b.k + 2) % 4)
        bonds.append(b)
        if b.s1 == site and b.k == k:
            bond = b
    net.bond_list = bonds
    G = w.tensor("G", p, p, p, p)
    used = []

    class G_:
        wrap_one_site = True

        def __getitem__(self, key):
            used.append(key)
            return G
    with w.concrete():
        up = SimpleUpdater(net, G_(), net.config.evolution)
    lam = {}
    for i, b in enumerate(bonds):
        lam[b] = w.positive(f"lam{i}", D, lower=1e-6)
        up.lambda_tensors[b] = lam[b]
    before = util.snapshot(net)
    w.clear_records()
    up.bond_update(bond)
    w.require(all(x == bond for x in used) and used, "the gate of the updated bond is applied")
    s1, s2 = bond.s1, bond.s2
    k2 = (k + 2) % 4
    w1, w2 = leg_weights(net, lam, s1, k), leg_weights(net, lam, s2, k2)
    t1, t2 = weighted(before[s1]["A"], w1), weighted(before[s2]["A"], w2)
    recs = [r for r in w.records if r["op"] == "qr"]
    sv = [r for r in w.records if r["op"] == "svd"]
    w.require(len(recs) == 2 and len(sv) == 1, "two QR decompositions and one SVD")
    q1, q2 = util.either(*[lambda x=x, y=y: (isometry(w, *x["outs"], t1, w1, k, D, p), isometry(w, *y["outs"], t2, w2, k2, D, p))
                           for x, y in (recs, recs[::-1])])
    n = q1.shape[3]
    w.require(tuple(sv[0]["args"][0].shape) == (n * p, n * p), "the decomposed matrix is the pair on (rest, phys)")
    # the gate-evolved weighted pair
    l1, l2 = sub_leg(k, "z", "abcd"), sub_leg(k2, "z", "efgh")
    o1, o2 = l1.replace("z", ""), l2.replace("z", "")
    theta = einsum(f"{l1}p,{l2}q,pqrs->{o1}r{o2}s", t1, t2, G)
    views = list(util.svd_layouts(sv[0], n, p))
    got = [lambda v=v: w.reduce(einsum("abcm,mrns,efgn->abcrefgs", q1, v[0], q2)) for v in views]
    M, U, S, Vh = next((v for v, g in zip(views, got) if w.holds_equal(g(), theta)), views[0])
    w.equal(got[0]() if M is views[0][0] else theta, theta, "the decomposed matrix is the gate applied to the weighted pair")
    # truncation
    St = S[:D]
    new = up.lambda_tensors[bond]
    # sqrt(S/|S|): square it to compare
    w.equal(einsum("a,a->a", new, new), St / St.norm(), "the bond's weights are the leading singular values, normalised")
    inv = inverse
    e1 = einsum("abcm,mpx,x->abcpx", q1, U[:, :, :D], new)
    e2 = einsum("abcm,xmp,x->abcpx", q2, einsum("xmp->xmp", Vh[:D]), new)
    pos = [0, 1, 2]
    a = list(pos)
    a.insert(k, 4)
    b = list(pos)
    b.insert(k2, 4)
    w.equal(net[s1]["A"], weighted(e1.permute(*a, 3), inv(w1)), "first site = leading singular vectors with the root weight, other bonds' weights removed")
    w.equal(net[s2]["A"], weighted(e2.permute(*b, 3), inv(w2)), "second site = leading singular vectors with the root weight, other bonds' weights removed")
    for x in bonds:
        if x != bond:
            w.equal(up.lambda_tensors[x], lam[x], "weights of other bonds are untouched")
    for s in net.site_list:
        for kind in ("C", "E"):
            for i in range(4):
                w.equal(net[s][kind][i], before[s][kind][i], "boundary tensors are untouched")
        if s not in (s1, s2):
            w.equal(net[s]["A"], before[s]["A"], "other sites are untouched")


def fresh(w, m):
    """an evolution starts from the network itself: the weights of all bonds are one"""
    from acetn.ipeps import Ipeps
    from acetn.evolution.simple_update import SimpleUpdater
    nx, ny, D = int(w.integer("nx", 2, m)), int(w.integer("ny", 2, m)), w.choose("D", (1, 2, 3))
    dt = w.choose("dtype", ("float32", "float64", "complex64", "complex128"))
    with w.concrete():
        net = Ipeps(util.cfg(nx, ny, 1, D, 2, dt))
        ups = [SimpleUpdater(net, None, net.config.evolution) for _ in range(2)]
        b0 = net.bond_list[int(w.integer("bond", 0, 2 * nx * ny - 1))]
        ups[0].lambda_tensors[b0] = torch.full((D,), 0.5, dtype=getattr(torch, dt).to_real())
        one = torch.ones(D, dtype=getattr(torch, dt).to_real())
    for b in net.bond_list:
        w.equal(ups[1].lambda_tensors[b], one, "the weights of a new evolution are one")
        if b != b0:
            w.equal(ups[0].lambda_tensors[b], one, "every bond has its own weights")


Q = [dict(k=k, D=2, p=2, real=r, site=s) for k in range(4) for r, s in ((False, (1, 0)), (True, (0, 1)))]
T = Q + [dict(k=k, D=D, p=p, real=r, nx=3, ny=2, site=(2, 1)) for k in range(4) for D, p in ((2, 3), (3, 2), (1, 2)) for r in (True, False)]
HARNESSES = [Harness("simple", simple, Q + [dict(k=k, D=1, p=2, real=bool(k % 2), site=(1, 1)) for k in range(4)] + [dict(k=k, D=2, p=3, real=False, nx=3, ny=2, site=(2, 1)) for k in (0, 3)] + [dict(k=2, D=3, p=2, real=True, nx=2, ny=3, site=(0, 2))], T, "D <= 3, p <= 3, cells up to 3x2, weights >= 1e-6", grade_tensors=False),
             Harness("fresh", fresh, [dict(m=3)], [dict(m=4)], "symbolic cells up to 3x3 (4x4), D <= 3, all data types", max_paths=20000)]
OUTSIDE = "weights below the code's own cutoff of 1e-12; gates given separately for sites (wrap_one_site=False is never used)"
