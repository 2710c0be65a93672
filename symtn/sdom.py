"""S-domain: tensors as multilinear forms over one-hot symbolic inputs.

Every generic input tensor is replaced by `sum_c x_c * onehot(position_c)` where the positions are z3
Int variables ranging over ALL entries of the tensor, and c ranges over `colours` (one per degree in
which the tensor occurs).  A homogeneous polynomial map is determined by its mixed coefficient at
one-hot arguments (multilinearity / polarisation), so an identity between two polynomial tensor
expressions holds for every real/complex input iff it holds for every value of the position variables.
Contraction, reshaping, slicing, ... become integer equalities between index expressions; the identity
is one quantifier-free integer query.

Non-multilinear operations (norms, factorisations, matrix functions, elementwise functions) return
fresh symbols, memoised by (operation, parameters, semantically equal arguments): the solver decides
whether the arguments agree.
"""
from fractions import Fraction
from .z3env import z3, solve
from . import paths


class Unsupported(Exception):
    """The encoding does not cover an operation the code used (an engine limit, never a violation)."""


class NeedColours(BaseException):
    def __init__(self, sym, n):
        self.sym, self.n = sym.rstrip("*"), n


# -- symbols -----------------------------------------------------------------------------------------
class Sym:
    """A base symbol. `bar` is its complex conjugate (itself when real)."""
    __slots__ = ("name", "shape", "real", "bar", "nonneg", "lower", "pow_base", "pow_exp", "pos", "world",
                 "info", "kind")

    def __init__(self, world, name, shape, real, nonneg=False, lower=None, info=None):
        self.world, self.name, self.shape, self.real = world, name, tuple(shape), real
        self.nonneg, self.lower = nonneg, lower
        self.pow_base, self.pow_exp = None, None
        self.bar = self
        self.info = info
        self.kind = None
        self.pos = []

    def colours(self):
        return self.world.ncol.get((self.pow_base or self).name.rstrip("*"), 1)

    def positions(self, c):
        while len(self.pos) <= c:
            k = len(self.pos)
            vs = []
            for a, d in enumerate(self.shape):
                v = z3.Int(f"{self.name}#{k}[{a}]") if d > 1 else 0
                if d > 1:
                    self.world.range_of[v.decl().name()] = d
                    self.world.range_var[v.decl().name()] = v
                vs.append(v)
            self.pos.append(vs)
        return self.pos[c]


class World:
    """Holds symbols, colour counts, opaque scalars and congruence tables of one symbolic run."""

    def __init__(self, ncol=None):
        self.ncol = dict(ncol or {})
        self.syms = {}
        self.range_of = {}
        self.range_var = {}
        self.scalars = {}      # id -> info
        self.memo = {}         # (op, params) -> [(args, result)]
        self.records = []      # factorisations in order
        self.counter = {}
        self._bv = 0
        self.keep = []
        self.randoms = []
        self.random_state, self.drawn = None, {}
        self.reals = {}
        self.bools = {}
        self.conj_cache = {}
        self.opaque_zero_div = []

    def unique(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else f"{base}~{n}"

    def symbol(self, name, shape, real=True, **kw):
        name = self.unique(name)
        s = Sym(self, name, shape, real, **kw)
        self.syms[name] = s
        if not real:
            b = Sym(self, name + "*", shape, False, **kw)
            s.bar, b.bar = b, s
            self.syms[b.name] = b
        return s

    def bound(self, dim):
        self._bv += 1
        v = z3.Int(f"_b{self._bv}")
        return v


_CB = []


def canon_bound(i):
    while len(_CB) <= i:
        _CB.append(z3.Int(f"_cb{len(_CB)}"))
    return _CB[i]


# -- coefficients: gaussian rational x laurent monomial of opaque scalars ------------------------------
def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
        if d[k] == 0:
            del d[k]
    return tuple(sorted(d.items()))


def mono_pow(a, e):
    return tuple((k, x * e) for k, x in a)


def _cmul(a, b):
    ar, ai = a
    br, bi = b
    if ai == 0 and bi == 0:
        return (ar * br, Fraction(0))
    return (ar * br - ai * bi, ar * bi + ai * br)


ONE = (Fraction(1), Fraction(0))


class Term:
    """coef * mono * [conds] * prod_a [i_a == axes_a], summed over the bound variables."""
    __slots__ = ("num", "mono", "conds", "axes", "used", "bound")

    def __init__(self, num, mono, conds, axes, used, bound):
        self.num, self.mono, self.conds, self.axes, self.used, self.bound = num, mono, conds, axes, used, bound

    def with_(self, **kw):
        d = {k: kw.get(k, getattr(self, k)) for k in self.__slots__}
        return Term(**d)


def eq_simpl(a, b):
    """True / False / z3 expr for a == b."""
    ia, ib = isinstance(a, int), isinstance(b, int)
    if ia and ib:
        return a == b
    if not ia and not ib and a.eq(b):
        return True
    return a == b


def axis_dim(ax):
    n = 1
    for _, d in ax:
        n *= d
    return n


def flat(ax):
    """Flatten a mixed radix axis to one index expression."""
    if not ax:
        return 0
    e = 0
    for x, d in ax:
        e = x if (isinstance(e, int) and e == 0) else e * d + x
    return e


def mk_axis(e, d):
    return () if d == 1 else ((e, d),)


def split_piece(e, d, d1, d2):
    if isinstance(e, int):
        return (e // d2, d1), (e % d2, d2)
    return (e / d2, d1), (e % d2, d2)


def regroup(pieces, dims):
    """Distribute a flat list of pieces over the new dims."""
    out = []
    st = list(pieces)
    for n in dims:
        need = n
        ax = []
        while need > 1:
            if not st:
                raise Unsupported("reshape: pieces exhausted")
            e, d = st.pop(0)
            if d == 1:
                continue
            if need % d == 0:
                ax.append((e, d))
                need //= d
            elif d % need == 0:
                p1, p2 = split_piece(e, d, need, d // need)
                ax.append(p1)
                st.insert(0, p2)
                need = 1
            else:
                # incompatible radices: merge with following pieces, then split
                if not st:
                    raise Unsupported("reshape: incompatible radices")
                e2, d2 = st.pop(0)
                st.insert(0, (flat(((e, d), (e2, d2))), d * d2))
        out.append(tuple(ax))
    return tuple(out)


def align(a, b):
    """Pairs of (expr, expr) that must be equal for two axes to coincide."""
    if tuple(d for _, d in a) == tuple(d for _, d in b):
        return [(x, y) for (x, _), (y, _) in zip(a, b)]
    # refine to common boundaries where possible
    pa, pb = list(a), list(b)
    out = []
    while pa and pb:
        (x, dx), (y, dy) = pa.pop(0), pb.pop(0)
        if dx == dy:
            out.append((x, y))
        elif dx % dy == 0 and isinstance(x, int) is False or (dx % dy == 0):
            p1, p2 = split_piece(x, dx, dy, dx // dy)
            # splitting keeps the leading digit; the rest stays
            out.append((p1[0], y))
            pa.insert(0, p2)
        elif dy % dx == 0:
            p1, p2 = split_piece(y, dy, dx, dy // dx)
            out.append((x, p1[0]))
            pb.insert(0, p2)
        else:
            return [(flat(a), flat(b))]
    if pa or pb:
        return [(flat(a), flat(b))]
    return out


def prep_sub(pairs):
    n = len(pairs)
    fr = (z3.Ast * n)()
    to = (z3.Ast * n)()
    for i, (a, b) in enumerate(pairs):
        fr[i] = a.as_ast()
        to[i] = b.as_ast()
    return n, fr, to, pairs


def fast_sub(e, prep):
    n, fr, to, _ = prep
    return z3.z3._to_expr_ref(z3.z3core.Z3_substitute(e.ctx.ref(), e.as_ast(), n, fr, to), e.ctx)


def subst_term(conds, axes, v, e):
    ez = z3.IntVal(e) if isinstance(e, int) else e

    def s(x):
        if isinstance(x, int):
            return x
        if x.eq(v):
            return e
        return fast_sub(x, prep)
    prep = prep_sub([(v, ez)])
    nc = []
    for c in conds:
        y = fast_sub(c, prep)
        if y.eq(c):
            nc.append(c)
            continue
        y = z3.simplify(y)
        if z3.is_true(y):
            continue
        if z3.is_false(y):
            return None
        nc.append(y)
    na = [tuple((s(x), d) for x, d in ax) for ax in axes]
    return nc, na


def add_equalities(conds, axes, bound, eqs):
    """Add equalities to (conds, axes, bound); eliminates bound variables. None when contradictory."""
    conds = list(conds)
    axes = list(axes)
    bound = dict(bound)
    todo = list(eqs)
    while todo:
        a, b = todo.pop(0)
        r = eq_simpl(a, b)
        if r is True:
            continue
        if r is False:
            return None
        done = False
        for x, y in ((a, b), (b, a)):
            if not isinstance(x, int) and z3.is_const(x) and x.decl().name() in bound:
                name = x.decl().name()
                v, d = bound.pop(name)
                if isinstance(y, int):
                    if not (0 <= y < d):
                        return None
                else:
                    yd = None
                    if z3.is_const(y) and y.decl().name() in bound:
                        yd = bound[y.decl().name()][1]
                    if yd is None or yd != d:
                        c = z3.And(y >= 0, y < d)
                        conds.append(c)
                r2 = subst_term(conds, axes, v, y)
                if r2 is None:
                    return None
                conds, axes = r2
                yz = z3.IntVal(y) if isinstance(y, int) else y
                nt = []
                for p, q in todo:
                    p = p if isinstance(p, int) else z3.substitute(p, (v, yz))
                    q = q if isinstance(q, int) else z3.substitute(q, (v, yz))
                    if not isinstance(p, int) and z3.is_int_value(p):
                        p = p.as_long()
                    if not isinstance(q, int) and z3.is_int_value(q):
                        q = q.as_long()
                    nt.append((p, q))
                todo = nt
                done = True
                break
        if not done:
            conds.append(r)
    return conds, axes, bound


def vars_in(e, acc):
    if isinstance(e, int):
        return
    st = [e]
    while st:
        x = st.pop()
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
        else:
            st.extend(x.children())


def drop_free_bound(num, conds, axes, bound):
    """Bound variables occurring nowhere contribute a factor of their range."""
    if not bound:
        return num, bound
    acc = set()
    for ax in axes:
        for e, _ in ax:
            vars_in(e, acc)
    for c in conds:
        vars_in(c, acc)
    nb = {}
    for k, (v, d) in bound.items():
        if k in acc:
            nb[k] = (v, d)
        else:
            num = (num[0] * d, num[1] * d)
    return num, nb


class SVal:
    """A tensor value of the S-domain."""
    __slots__ = ("world", "shape", "terms", "deg", "zint", "zbool", "_key")

    def __init__(self, world, shape, terms, deg, zint=None, zbool=None):
        self.world, self.shape, self.terms, self.deg = world, tuple(shape), terms, deg
        self.zint, self.zbool = zint, zbool
        self._key = None

    # structural key, for a fast congruence check (expressions are hash-consed and kept alive by their terms)
    def key(self):
        if self._key is None:
            ks = []
            for t in self.terms:
                conds, axes = t.conds, t.axes
                if t.bound:
                    bs = sorted(t.bound, key=lambda k: int(k[2:]))
                    sub = [(t.bound[k][0], canon_bound(i)) for i, k in enumerate(bs)]
                    conds = [z3.substitute(c, *sub) for c in conds]
                    axes = [[(e if isinstance(e, int) else z3.substitute(e, *sub), d) for e, d in ax] for ax in axes]
                    bd = tuple(t.bound[k][1] for k in bs)
                    self.world.keep.append((conds, axes))
                else:
                    bd = ()
                ks.append((t.num, t.mono, tuple(sorted(c.get_id() for c in conds)),
                           tuple(tuple((e if isinstance(e, int) else ("z", e.get_id()), d) for e, d in ax)
                                 for ax in axes), tuple(sorted(t.used)), bd))
            self._key = (self.shape, tuple(sorted(ks, key=str)), str(self.zint), str(self.zbool))
        return self._key

    def is_zero(self):
        return not self.terms and self.zint is None and self.zbool is None


# -- constructors ------------------------------------------------------------------------------------
def from_symbol(sym):
    w = sym.world
    terms = []
    for c in range(sym.colours()):
        p = sym.positions(c)
        axes = tuple(mk_axis(v, d) for v, d in zip(p, sym.shape))
        terms.append(Term(ONE, (), (), axes, frozenset([(sym.name, c)]), {}))
    if 0 in sym.shape:
        terms = []
    return SVal(w, sym.shape, terms, {sym.name: 1})


def zeros(w, shape):
    return SVal(w, shape, [], {})


def full(w, shape, num, mono=()):
    if 0 in shape or num == (0, 0):
        return zeros(w, shape)
    axes, bound = [], {}
    for d in shape:
        if d == 1:
            axes.append(())
        else:
            v = w.bound(d)
            bound[v.decl().name()] = (v, d)
            axes.append(((v, d),))
    return SVal(w, shape, [Term(num, mono, (), tuple(axes), frozenset(), bound)], {})


def eye(w, n, m):
    k = min(n, m)
    if k == 0:
        return zeros(w, (n, m))
    if n == 1 or m == 1:
        return SVal(w, (n, m), [Term(ONE, (), (), (mk_axis(0, n), mk_axis(0, m)), frozenset(), {})], {})
    v = w.bound(k)
    return SVal(w, (n, m), [Term(ONE, (), (), (((v, n),), ((v, m),)), frozenset(), {v.decl().name(): (v, k)})], {})


def to_frac(x):
    if isinstance(x, complex):
        return (Fraction(x.real), Fraction(x.imag))
    return (Fraction(x), Fraction(0))


def from_concrete(w, t):
    """Lift a plain torch tensor exactly (every float is a rational)."""
    shape = tuple(t.shape)
    n = 1
    for d in shape:
        n *= d
    if n == 0:
        return zeros(w, shape)
    flatl = t.detach().reshape(-1).tolist()
    nz = [(i, v) for i, v in enumerate(flatl) if v != 0]
    if len(nz) == n and n > 1 and all(v == flatl[0] for v in flatl):
        return full(w, shape, to_frac(flatl[0]))
    if len(nz) > 5000:
        raise Unsupported(f"lifting a dense constant tensor with {len(nz)} nonzeros")
    terms = []
    for i, v in nz:
        idx = []
        r = i
        for d in reversed(shape):
            idx.append(r % d)
            r //= d
        idx.reverse()
        terms.append(Term(to_frac(v), (), (), tuple(mk_axis(j, d) for j, d in zip(idx, shape)), frozenset(), {}))
    return SVal(w, shape, terms, {})


# -- linear structure --------------------------------------------------------------------------------
def deg_mul(a, b):
    d = dict(a)
    for k, v in b.items():
        d[k] = d.get(k, 0) + v
    return d


def deg_max(a, b):
    d = dict(a)
    for k, v in b.items():
        d[k] = max(d.get(k, 0), v)
    return d


def merge(terms):
    """Merge syntactically identical terms."""
    if len(terms) < 2:
        return terms
    out = {}
    order = []
    for t in terms:
        if t.bound:
            k = ("b", id(t))
        else:
            k = (t.mono, t.used, tuple(sorted(c.get_id() for c in t.conds)),
                 tuple(tuple((e if isinstance(e, int) else ("z", e.get_id()), d) for e, d in ax) for ax in t.axes))
        if k in out:
            o = out[k]
            out[k] = o.with_(num=(o.num[0] + t.num[0], o.num[1] + t.num[1]))
        else:
            out[k] = t
            order.append(k)
    return [out[k] for k in order if out[k].num != (0, 0)]


def scale(a, num, mono=()):
    if num == (0, 0):
        return SVal(a.world, a.shape, [], dict(a.deg))
    return SVal(a.world, a.shape, [t.with_(num=_cmul(t.num, num), mono=mono_mul(t.mono, mono)) for t in a.terms],
                a.deg)


def add(a, b):
    if a.shape != b.shape:
        sh = bshape(a.shape, b.shape)
        a, b = expand(a, sh), expand(b, sh)
    terms = merge(a.terms + b.terms)
    return SVal(a.world, a.shape, terms, deg_max(a.deg, b.deg))


def bshape(s, t):
    n = max(len(s), len(t))
    s = (1,) * (n - len(s)) + tuple(s)
    t = (1,) * (n - len(t)) + tuple(t)
    out = []
    for x, y in zip(s, t):
        if x != y and 1 not in (x, y):
            raise Unsupported(f"broadcast {s} {t}")
        out.append(y if x == 1 else x)
    return tuple(out)


def expand(a, shape):
    shape = list(shape)
    sh = (1,) * (len(shape) - len(a.shape)) + a.shape
    for i, d in enumerate(shape):
        if d == -1:
            shape[i] = sh[i]
    terms = []
    for t in a.terms:
        axes = ((),) * (len(shape) - len(a.shape)) + t.axes
        bound = dict(t.bound)
        na = []
        for ax, d0, d in zip(axes, sh, shape):
            if d0 == 1 and d != 1:
                v = a.world.bound(d)
                bound[v.decl().name()] = (v, d)
                na.append(((v, d),))
            else:
                na.append(ax)
        terms.append(t.with_(axes=tuple(na), bound=bound))
    if 0 in shape:
        terms = []
    return SVal(a.world, tuple(shape), terms, a.deg)


def rename_bound(w, t):
    """Fresh bound variables, so that two uses of one value do not share them."""
    if not t.bound:
        return t
    conds, axes, bound = list(t.conds), list(t.axes), {}
    for k, (v, d) in t.bound.items():
        nv = w.bound(d)
        conds, axes = subst_term(conds, axes, v, nv)
        bound[nv.decl().name()] = (nv, d)
    return t.with_(conds=tuple(conds), axes=tuple(axes), bound=bound)


MAX_TERMS = 60000


def pow_symbol(base, e):
    """The elementwise power base**e of a nonnegative (or nonzero) vector symbol."""
    w = base.world
    b = base.pow_base or base
    if b.pow_base is None:
        b.pow_base, b.pow_exp = b, Fraction(1)
    if e == 1:
        return b
    name = f"{b.name}^({e})"
    if name in w.syms:
        return w.syms[name]
    s = Sym(w, name, b.shape, True, nonneg=b.nonneg)
    s.pow_base, s.pow_exp = b, Fraction(e)
    w.syms[name] = s
    return s


def _alias_pow(w, t, used):
    """Give t private position variables for pow-family vectors whose family already occurs in `used`."""
    fams = {id(w.syms[n].pow_base) for n, _ in used if w.syms[n].pow_base is not None}
    pa = []
    for n, c in t.used:
        s = w.syms[n]
        if s.pow_base is not None and id(s.pow_base) in fams and len(s.shape) == 1 and s.shape[0] > 1:
            pv = s.positions(c)[0]
            nv = w.bound(s.shape[0])
            r = subst_term(t.conds, t.axes, pv, nv)
            t = t.with_(conds=tuple(r[0]), axes=tuple(r[1]))
            pa.append(((n, c), pv, nv))
    return t, pa


def _fixed(conds, vs):
    """the number one of the variables is equated with"""
    for k in conds:
        if z3.is_eq(k):
            a, b = k.children()
            for a, b in ((a, b), (b, a)):
                if z3.is_int_value(b) and any(a.eq(v) for v in vs):
                    return b.as_long()
    return None


def _merge_pow(w, conds, axes, bound, used_a, used_b, pa):
    used_b = set(used_b)
    used_a = set(used_a)
    for (n, c), pv, nv in pa:
        s = w.syms[n]
        hit = None
        cls = [nv]                      # everything the position is equated with, through chains of equalities
        for y in cls:
            for k in conds:
                if z3.is_eq(k):
                    a, b = k.children()
                    for a, b in ((a, b), (b, a)):
                        if a.eq(y) and z3.is_const(b) and not z3.is_int_value(b) and not any(b.eq(z) for z in cls):
                            cls.append(b)
        for y in cls:
            for (m, c2) in used_a:
                q = w.syms[m]
                if q.pow_base is s.pow_base and y.eq(q.positions(c2)[0]):
                    hit = (m, c2, y)
        if hit is None:                 # both at the same fixed position
            at = _fixed(conds, cls)
            for (m, c2) in sorted(used_a) if at is not None else ():
                q = w.syms[m]
                if q.pow_base is s.pow_base and _fixed(conds, [q.positions(c2)[0]]) == at:
                    hit = (m, c2, q.positions(c2)[0])
        if hit is None:
            if (n, c) in used_a:
                return None            # a genuine square: needs colours
            r = subst_term(conds, axes, nv, pv)
            conds, axes = r
            continue
        m, c2, y = hit
        q = w.syms[m]
        e = q.pow_exp + s.pow_exp
        r = subst_term(conds, axes, nv, y)
        if r is None:
            return None
        conds, axes = r
        used_b.discard((n, c))
        used_a.discard((m, c2))
        if e == 0:
            bv = w.bound(s.shape[0])
            conds, axes = subst_term(conds, axes, y, bv)
            bound = dict(bound)
            bound[bv.decl().name()] = (bv, s.shape[0])
        else:
            ns = pow_symbol(s.pow_base, e)
            tgt = ns.positions(c2)[0]
            if (ns.name, c2) in used_a or (ns.name, c2) in used_b:
                return None
            conds, axes = subst_term(conds, axes, y, tgt)
            used_a.add((ns.name, c2))
    return conds, axes, bound, frozenset(used_a | used_b)


def _merge_single(w, a, b):
    """multiply the powers of the same number (vectors with one entry have no position to align)"""
    single = lambda n: w.syms[n].pow_base is not None and w.syms[n].shape == (1,)
    fam = {id(w.syms[n].pow_base): (n, c) for n, c in a if single(n)}
    for n, c in sorted(b):
        if single(n) and id(w.syms[n].pow_base) in fam:
            m = fam[id(w.syms[n].pow_base)]
            e = w.syms[m[0]].pow_exp + w.syms[n].pow_exp
            a, b = a - {m}, b - {(n, c)}
            if e != 0:
                a = a | {(pow_symbol(w.syms[n].pow_base, e).name, m[1])}
    return a, b


def contract(vals, subs, out):
    """einsum over SVals; subs: list of index tuples (hashable labels); out: tuple of labels."""
    w = vals[0].world
    # label dims
    dims = {}
    for v, s in zip(vals, subs):
        if len(v.shape) != len(s):
            raise Unsupported("einsum rank")
        for d, l in zip(v.shape, s):
            if l not in dims or dims[l] == 1:
                dims[l] = d
    acc = [(ONE, (), (), (), frozenset(), {}, {})]   # num, mono, conds, _, used, bound, label->axis
    deg = {}
    dropped = set()
    remaining = list(range(len(vals)))
    for i in remaining:
        v, s = vals[i], subs[i]
        deg = deg_mul(deg, v.deg)
        later = set(out)
        for j in remaining[i + 1:]:
            later.update(subs[j])
        nacc = []
        for (num, mono, conds, _, used, bound, lab) in acc:
            for t0 in v.terms:
                alias = None
                if used and t0.used:
                    coll = used & t0.used
                    if coll:
                        if not all(w.syms[n].pow_base is not None for n, _ in coll):
                            dropped.update(n for n, _ in coll)
                            continue
                        alias = coll
                t = rename_bound(w, t0)
                pa = []
                if used and t0.used:
                    t, pa = _alias_pow(w, t, used)
                labels = list(lab.keys())
                axes = [lab[l] for l in labels]
                b2 = dict(bound)
                b2.update(t.bound)
                eqs = []
                nl, nax = [], []
                seen = {}
                base = dict(zip(labels, axes))
                for l, ax, d in zip(s, t.axes, v.shape):
                    if d == 1 and dims[l] != 1:
                        continue     # broadcast
                    if l in base:
                        eqs += align(base[l], ax)
                    elif l in seen:
                        eqs += align(seen[l], ax)
                    else:
                        seen[l] = ax
                        nl.append(l)
                        nax.append(ax)
                r = add_equalities(list(conds) + list(t.conds), axes + nax, b2, eqs)
                if r is None:
                    continue
                c2, ax2, b3 = r
                ua, ub = _merge_single(w, used, t.used) if used and t.used else (used, t.used)
                u2 = ua | ub
                if pa:
                    r = _merge_pow(w, c2, ax2, b3, ua, ub, pa)
                    if r is None:
                        dropped.update(n for n, _ in (alias or ()))
                        continue
                    c2, ax2, b3, u2 = r
                full_l = labels + nl
                lab2 = {l: tuple(a) for l, a in zip(full_l, ax2) if l in later}
                n2 = _cmul(num, t.num)
                n2, b3 = drop_free_bound(n2, c2, list(lab2.values()), b3)
                nacc.append((n2, mono_mul(mono, t.mono), tuple(c2), (), u2, b3, lab2))
        acc = nacc
        if len(acc) > MAX_TERMS:
            raise Unsupported(f"more than {MAX_TERMS} terms in a contraction")
    terms = []
    for (num, mono, conds, _, used, bound, lab) in acc:
        axes = []
        for l in out:
            if l in lab:
                axes.append(lab[l])
            else:
                if dims[l] != 1:
                    raise Unsupported("einsum output label lost")
                axes.append(())
        terms.append(Term(num, mono, conds, tuple(axes), used, bound))
    # labels of dim>1 summed but present in no operand at full size cannot occur
    for n in list(deg):
        if w.syms[n].pow_base is not None and n not in dropped:
            del deg[n]
    for t in terms:
        cnt = {}
        for n, _ in t.used:
            cnt[n] = cnt.get(n, 0) + 1
        for n, k in cnt.items():
            deg[n] = max(deg.get(n, 0), k)
    return SVal(w, tuple(dims[l] for l in out), merge(terms), deg)


def mul(a, b):
    sh = bshape(a.shape, b.shape)
    n = len(sh)
    la = tuple(range(n - len(a.shape), n))
    lb = tuple(range(n - len(b.shape), n))
    r = contract([a, b], [la, lb], tuple(range(n)))
    return SVal(r.world, sh, r.terms, r.deg)


def conj(a):
    w = a.world
    names = {n for t in a.terms for n, _ in t.used}
    sub = []
    done = set()
    for n in names:
        s = w.syms[n]
        if s.bar is s:
            continue
        for x in (s, s.bar):
            if x.name in done:
                continue
            done.add(x.name)
            for c in range(max(x.colours(), x.bar.colours(), 1)):
                for v, u in zip(x.positions(c), x.bar.positions(c)):
                    if not isinstance(v, int):
                        sub.append((v, u))

    prep = prep_sub(sub)
    cache = w.conj_cache

    def f(e):
        if isinstance(e, int) or not sub:
            return e
        i = e.get_id()
        r = cache.get(i)
        if r is None:
            r = (e, fast_sub(e, prep))
            cache[i] = r
        return r[1]

    def u(name):
        return w.syms[name].bar.name
    terms = []
    for t in a.terms:
        terms.append(Term((t.num[0], -t.num[1]), t.mono, tuple(f(c) for c in t.conds),
                          tuple(tuple((f(e), d) for e, d in ax) for ax in t.axes),
                          frozenset((u(n), c) for n, c in t.used), t.bound))
    return SVal(w, a.shape, terms, {u(n): k for n, k in a.deg.items()}, a.zint, a.zbool)


# -- shape operations --------------------------------------------------------------------------------
def permute(a, p):
    p = [x % len(a.shape) for x in p] if a.shape else []
    return SVal(a.world, tuple(a.shape[i] for i in p),
                [t.with_(axes=tuple(t.axes[i] for i in p)) for t in a.terms], a.deg)


def reshape(a, shape):
    shape = tuple(shape)
    if shape == a.shape:
        return a
    terms = []
    for t in a.terms:
        pieces = [p for ax in t.axes for p in ax]
        terms.append(t.with_(axes=regroup(pieces, shape)))
    return SVal(a.world, shape, terms, a.deg, a.zint, a.zbool)


def slice_(a, dim, start, stop, step=1):
    n = a.shape[dim]
    m = max(0, (stop - start + step - 1) // step)
    sh = a.shape[:dim] + (m,) + a.shape[dim + 1:]
    if start == 0 and stop >= n and step == 1:
        return a
    terms = []
    for t in a.terms:
        e = flat(t.axes[dim])
        if isinstance(e, int):
            if not (start <= e < stop and (e - start) % step == 0):
                continue
            terms.append(t.with_(axes=t.axes[:dim] + (mk_axis((e - start) // step, m),) + t.axes[dim + 1:]))
            continue
        if m == 0:
            continue
        conds = list(t.conds)
        if m == 1:
            r = add_equalities(conds, t.axes[:dim] + ((),) + t.axes[dim + 1:], t.bound, [(e, start)])
            if r is None:
                continue
            c2, ax2, b2 = r
            terms.append(t.with_(conds=tuple(c2), axes=tuple(tuple(x) for x in ax2), bound=b2))
            continue
        # a lone bound variable (ones / eye direction) just gets a smaller range
        if z3.is_const(e) and e.decl().name() in t.bound:
            name = e.decl().name()
            v, d = t.bound[name]
            lo, hi = start, min(stop, d)
            mm = max(0, (hi - lo + step - 1) // step)
            if mm == 0:
                continue
            bound = dict(t.bound)
            del bound[name]
            if mm > 1:
                nv = a.world.bound(mm)
                bound[nv.decl().name()] = (nv, mm)
            else:
                nv = 0
            r = subst_term(t.conds, t.axes, v, nv * step + start)
            if r is None:
                continue
            c2, ax2 = r
            ax2[dim] = mk_axis(nv, m)
            terms.append(t.with_(conds=tuple(c2), axes=tuple(ax2), bound=bound))
            continue
        if start > 0:
            conds.append(e >= start)
        if stop < n:
            conds.append(e < stop)
        if step != 1:
            conds.append((e - start) % step == 0)
        ne = e - start if start else e
        if step != 1:
            ne = ne / step
        terms.append(t.with_(conds=tuple(conds), axes=t.axes[:dim] + (mk_axis(ne, m),) + t.axes[dim + 1:]))
    return SVal(a.world, sh, terms, a.deg)


def unslice(a, dim, n, start, step=1):
    """Embed a (shape m at dim) into zeros with size n at dim."""
    sh = a.shape[:dim] + (n,) + a.shape[dim + 1:]
    terms = []
    for t in a.terms:
        e = flat(t.axes[dim])
        terms.append(t.with_(axes=t.axes[:dim] + (mk_axis(e * step + start, n),) + t.axes[dim + 1:]))
    return SVal(a.world, sh, terms, a.deg)


def dead(w, t):
    """uninitialised memory that has been overwritten: the conditions of the term are unsatisfiable"""
    if not any(n.startswith("uninit") for n, _ in t.used):
        return False
    return unsat_term(w, t)


def unsat_term(w, t):
    key = tuple(c.get_id() for c in t.conds)
    hit = _UNSAT.get(key)
    if hit is None or hit[2] is not w:
        if len(_UNSAT) > 20000:
            _UNSAT.clear()
        hit = _UNSAT[key] = (_unsat_term(w, t), t.conds, w)
    return hit[0]


_UNSAT = {}


def _unsat_term(w, t):
    names = set()
    for c in t.conds:
        vars_in(c, names)
    cons = list(t.conds)
    for nm in names:
        if nm in w.range_of:
            v = w.range_var[nm]
            cons += [v >= 0, v < w.range_of[nm]]
    for v, d in t.bound.values():
        cons += [v >= 0, v < d]
    r, _ = solve(cons, "branch")
    return r == "unsat"


def mask_out_slice(a, dim, start, stop, step=1):
    """Zero the entries of a inside the slice."""
    terms = []
    for t in a.terms:
        e = flat(t.axes[dim])
        if isinstance(e, int):
            if start <= e < stop and (e - start) % step == 0:
                continue
            terms.append(t)
            continue
        if stop == start + 1:
            t = t.with_(conds=tuple(t.conds) + (e != start,))
            if not dead(a.world, t):
                terms.append(t)
            continue
        inside = [e >= start, e < stop]
        if step != 1:
            inside.append((e - start) % step == 0)
        if start <= 0 and stop >= a.shape[dim] and step == 1:
            continue
        t = t.with_(conds=tuple(t.conds) + (z3.Not(z3.And(*inside)),))
        if not dead(a.world, t):
            terms.append(t)
    return SVal(a.world, a.shape, terms, a.deg)


def select(a, dim, i):
    n = a.shape[dim]
    if i < 0:
        i += n
    terms = []
    for t in a.terms:
        r = add_equalities(t.conds, t.axes[:dim] + t.axes[dim + 1:], t.bound, [(flat(t.axes[dim]), i)])
        if r is None:
            continue
        c, ax, b = r
        num, b = drop_free_bound(t.num, c, ax, b)
        terms.append(t.with_(num=num, conds=tuple(c), axes=tuple(tuple(x) for x in ax), bound=b))
    return SVal(a.world, a.shape[:dim] + a.shape[dim + 1:], terms, a.deg)


def unselect(a, dim, n, i):
    if i < 0:
        i += n
    sh = a.shape[:dim] + (n,) + a.shape[dim:]
    return SVal(a.world, sh, [t.with_(axes=t.axes[:dim] + (mk_axis(i, n),) + t.axes[dim:]) for t in a.terms], a.deg)


def diagonal(a, d1, d2):
    labels = list(range(len(a.shape)))
    labels[d2] = labels[d1]
    out = [l for i, l in enumerate(labels) if i not in (d1, d2)] + [labels[d1]]
    return contract([a], [tuple(labels)], tuple(out))


def diag_embed(a):
    """last axis -> (n, n) diagonal"""
    n = a.shape[-1]
    r = [t.with_(axes=t.axes + (t.axes[-1],)) for t in a.terms]
    return SVal(a.world, a.shape + (n,), r, a.deg)


def sum_(a, dims, keepdim):
    dims = {d % len(a.shape) for d in dims} if a.shape else set()
    terms = []
    for t in a.terms:
        axes = []
        for i, ax in enumerate(t.axes):
            if i in dims:
                if keepdim:
                    axes.append(())
            else:
                axes.append(ax)
        num, b = drop_free_bound(t.num, t.conds, axes, t.bound)
        terms.append(t.with_(num=num, axes=tuple(axes), bound=b))
    sh = tuple((1 if i in dims else d) for i, d in enumerate(a.shape) if i not in dims or keepdim)
    return SVal(a.world, sh, merge(terms), a.deg)


def flip(a, dims):
    dims = {d % len(a.shape) for d in dims}
    terms = []
    for t in a.terms:
        axes = tuple((mk_axis((d - 1) - flat(ax), d) if i in dims else ax)
                     for i, (ax, d) in enumerate(zip(t.axes, a.shape)))
        terms.append(t.with_(axes=axes))
    return SVal(a.world, a.shape, terms, a.deg)


def tri(a, upper, k):
    terms = []
    for t in a.terms:
        i, j = flat(t.axes[-2]), flat(t.axes[-1])
        c = (j - i >= k) if upper else (j - i <= k)
        if isinstance(c, bool):
            if c:
                terms.append(t)
        else:
            terms.append(t.with_(conds=t.conds + (c,)))
    return SVal(a.world, a.shape, terms, a.deg)


def index_map(a, dim, idx):
    """index_select with concrete integer list."""
    parts = None
    for o, i in enumerate(idx):
        p = unselect(select(a, dim, i), dim, len(idx), o)
        parts = p if parts is None else add(parts, p)
    if parts is None:
        return zeros(a.world, a.shape[:dim] + (0,) + a.shape[dim + 1:])
    return parts


# -- deciding equality -------------------------------------------------------------------------------
def check_degrees(*vals):
    for a in vals:
        w = a.world
        for n, d in a.deg.items():
            if d > w.syms[n].colours():
                raise need_colours(w, n, d)


def need_colours(w, n, d):
    b = w.syms[n].pow_base
    return NeedColours(b.name if b is not None else n, d)


def _grid(dimn, all_axes):
    """Finest compatible radix partition of one axis over all terms; None when incompatible."""
    strides = {1}
    for ax in all_axes:
        s = 1
        for _, d in reversed(ax):
            strides.add(s)
            s *= d
        strides.add(s)
    strides.add(dimn)
    st = sorted(strides)
    for a, b in zip(st, st[1:]):
        if b % a:
            return None
    return st


def mismatch(a, b):
    """z3 formulas (list) satisfiable iff a != b somewhere. [] conjunction convention: returns (constraints, disj)."""
    w = a.world
    assert a.shape == b.shape, (a.shape, b.shape)
    n = len(a.shape)
    terms = [(t, 1) for t in a.terms] + [(t, -1) for t in b.terms]
    cons = []
    grids, ovars = [], []
    for i in range(n):
        g = _grid(a.shape[i], [t.axes[i] for t, _ in terms])
        if g is None:
            o = z3.Int(f"_o{i}")
            cons += [o >= 0, o < a.shape[i]]
            ovars.append(o)
            grids.append(None)
        else:
            vs = []
            for lo, hi in zip(g, g[1:]):
                d = hi // lo
                v = z3.Int(f"_o{i}_{lo}")
                cons += [v >= 0, v < d]
                vs.append((lo, d, v))
            grids.append(vs)
            ovars.append(None)
    names = set()
    groups = {}
    for t, sg in terms:
        eqs = []
        for i in range(n):
            ax = t.axes[i]
            if grids[i] is None:
                eqs.append((flat(ax), ovars[i]))
            else:
                s = 1
                for e, d in reversed(ax):
                    lo, hi = s, s * d
                    o = 0
                    for (l, dd, v) in reversed(grids[i]):
                        if lo <= l < hi:
                            o = v if (isinstance(o, int) and o == 0) else o * dd + v
                    # digits are listed from least significant; rebuild from most significant
                    o = 0
                    for (l, dd, v) in sorted([g for g in grids[i] if lo <= g[0] < hi], key=lambda g: -g[0]):
                        o = v if (isinstance(o, int) and o == 0) else o * dd + v
                    eqs.append((e, o))
                    s = hi
        r = add_equalities(t.conds, (), t.bound, eqs)
        if r is None:
            continue
        conds, _, bound = r
        inds = [list(conds)]
        # remaining bound variables: expand over their (small) range
        for k, (v, d) in bound.items():
            if d * len(inds) > 4096:
                raise Unsupported("too many bound variable expansions")
            inds = [[z3.substitute(c, (v, z3.IntVal(x))) for c in cs] for cs in inds for x in range(d)]
        for cs in inds:
            for c in cs:
                vars_in(c, names)
            ind = z3.And(*cs) if cs else z3.BoolVal(True)
            groups.setdefault((t.mono, t.used), []).append((sg * t.num[0], sg * t.num[1], ind))
    disj = []
    for k, g in groups.items():
        res = [(c, i) for c, _, i in g if c != 0]
        ims = [(c, i) for _, c, i in g if c != 0]
        for l in (res, ims):
            if not l:
                continue
            if len(l) == 2 and l[0][0] == -l[1][0]:
                disj.append(z3.Xor(l[0][1], l[1][1]))
            elif len(l) == 1:
                disj.append(l[0][1])
            else:
                den = 1
                for c, _ in l:
                    den = den * c.denominator // _gcd(den, c.denominator)
                disj.append(z3.Sum([z3.If(i, z3.IntVal(int(c * den)), z3.IntVal(0)) for c, i in l]) != 0)
    for nm in names:
        if nm in w.range_of:
            v = w.range_var[nm]
            cons += [v >= 0, v < w.range_of[nm]]
    return cons, disj


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def differs(a, b, kind="proof"):
    """None when equal for all positions, else a z3 model."""
    check_degrees(a, b)
    cons, disj = mismatch(a, b)
    global PC_USED
    PC_USED = False
    if not disj:
        return None
    v, m = solve(cons + [z3.Or(*disj)], kind)
    pc = paths.CURRENT.pc if paths.CURRENT is not None else []
    if v == "sat" and pc:
        PC_USED = True
        v, m = solve(list(pc) + cons + [z3.Or(*disj)], kind)
    return m if v == "sat" else None


PC_USED = False        # did the last verdict need the path condition


def nonzero(a):
    cons, disj = mismatch(a, SVal(a.world, a.shape, [], {}))
    if not disj:
        return False
    v, m = solve(cons + [z3.Or(*disj)], "vacuity")
    return v == "sat"


def same(a, b):
    """Semantic equality used for congruence (engine internal)."""
    if a is b:
        return True
    if a.shape != b.shape:
        return False
    if a.zint is not None or b.zint is not None:
        return a.zint is not None and b.zint is not None and a.zint.eq(b.zint)
    if a.zbool is not None or b.zbool is not None:
        return a.zbool is not None and b.zbool is not None and a.zbool.eq(b.zbool)
    if a.key() == b.key():
        return True
    # cheap refutation: different symbol content
    ka = {(t.mono, frozenset(n for n, _ in t.used)) for t in a.terms}
    kb = {(t.mono, frozenset(n for n, _ in t.used)) for t in b.terms}
    if ka != kb:
        # terms whose conditions cannot be met do not count
        odd = ka ^ kb
        for x in (a, b):
            for t in x.terms:
                k = (t.mono, frozenset(n for n, _ in t.used))
                if k in odd and not (t.conds and unsat_term(x.world, t)):
                    return False
    try:
        for x in (a, b):
            for n, d in x.deg.items():
                if d > x.world.syms[n].colours():
                    raise need_colours(x.world, n, d)
    except NeedColours:
        raise
    cons, disj = mismatch(a, b)
    if not disj:
        return True
    v, _ = solve(cons + [z3.Or(*disj)], "congruence")
    return v == "unsat"


def ratio_candidates(a, b):
    """(num, mono) such that a == num*mono*b could hold."""
    out = []
    for t in a.terms:
        for u in b.terms:
            if t.used == u.used and len(out) < 64:
                if u.num == (0, 0):
                    continue
                d = u.num[0] ** 2 + u.num[1] ** 2
                q = _cmul(t.num, (u.num[0] / d, -u.num[1] / d))
                c = (q, mono_mul(t.mono, mono_pow(u.mono, -1)))
                if c not in out:
                    out.append(c)
    return out


# -- rewriting by the contracts of decompositions -------------------------------------------------------
def degree_in(a, name):
    return max([sum(1 for n, _ in t.used if n == name) for t in a.terms] or [0])


def names_in(a):
    return {n for t in a.terms for n, _ in t.used}


def _unint(e):
    return e.as_long() if z3.is_int_value(e) else e


def digits(p, d, conds, axes):
    """Mixed radix digits through which p (0 <= p < d) is used: (strides, [(expr, lo, hi)]); None when not useful."""
    pid = p.get_id()
    found = {pid: (p, 1, d)}
    seen = {}
    keep = []

    def walk(e):
        i = e.get_id()
        if i in seen:
            return seen[i]
        r = None
        if i == pid:
            r = (1, d)
        elif not z3.is_const(e):
            ch = e.children()
            rs = [walk(c) for c in ch]
            k = e.decl().kind()
            if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and rs[0] is not None and z3.is_int_value(ch[1]):
                m = ch[1].as_long()
                lo, hi = rs[0]
                if m > 0 and (hi // lo) % m == 0:
                    r = (lo * m, hi) if k == z3.Z3_OP_IDIV else (lo, lo * m)
                    found[i] = (e, r[0], r[1])
        seen[i] = r
        keep.append(e)
        return r
    for c in conds:
        walk(c)
    for ax in axes:
        for e, _ in ax:
            if not isinstance(e, int):
                walk(e)
    st = sorted({1, d} | {x for _, lo, hi in found.values() for x in (lo, hi)})
    if len(st) <= 2 or any(b % a for a, b in zip(st, st[1:])):
        return None
    return st, list(found.values())


def replace(a, name, v):
    """a with the symbol `name` (occurring at most linearly) replaced by the value v of the same shape"""
    w = a.world
    sym = w.syms[name]
    if v.shape != sym.shape:
        raise Unsupported(f"replace {name}: shape {v.shape} for {sym.shape}")
    if degree_in(a, name) > 1:
        raise Unsupported(f"replace {name}: not linear")
    keep, sub = [], []
    for t in a.terms:
        cs = [c for n, c in t.used if n == name]
        if not cs:
            keep.append(t)
        elif cs[0] == 0:
            sub.append(t)
    out = keep
    if sub:
        pos = sym.positions(0)
        nt = []
        for t in sub:
            conds, axes, bound = list(t.conds), list(t.axes), dict(t.bound)
            extra = []
            for p, d in zip(pos, sym.shape):
                if isinstance(p, int):
                    extra.append(())
                    continue
                ds = digits(p, d, conds, axes)
                if ds is not None:
                    vs, sub = [], []
                    st, exprs = ds
                    for lo, hi in reversed(list(zip(st, st[1:]))):
                        b = w.bound(hi // lo)
                        bound[b.decl().name()] = (b, hi // lo)
                        vs.append((b, hi // lo, lo))
                    for e, lo, hi in exprs:
                        r = 0
                        for b, n, l in vs:
                            if lo <= l < hi:
                                r = b if isinstance(r, int) else r * n + b
                        sub.append((e, r if not isinstance(r, int) else z3.IntVal(r)))
                    prep = prep_sub(sub)
                    f = lambda x: x if isinstance(x, int) else _unint(fast_sub(x, prep))
                    conds = [fast_sub(c, prep) for c in conds]
                    axes = [tuple((f(x), n) for x, n in ax) for ax in axes]
                    extra.append(tuple((b, n) for b, n, _ in vs))
                    continue
                b = w.bound(d)
                conds, axes = subst_term(conds, axes, p, b)
                bound[b.decl().name()] = (b, d)
                extra.append(((b, d),))
            nt.append(t.with_(conds=tuple(conds), axes=tuple(axes) + tuple(extra), bound=bound,
                              used=frozenset(u for u in t.used if u != (name, 0))))
        deg = {}
        for t in nt:
            for n, _ in t.used:
                deg[n] = max(deg.get(n, 0), sum(1 for m, _ in t.used if m == n))
        x = SVal(w, a.shape + sym.shape, nt, deg)
        n = len(a.shape)
        la = tuple(range(n))
        lb = tuple(range(n, n + len(sym.shape)))
        r = contract([x, v], [la + lb, lb], la)
        out = keep + r.terms
    deg = {}
    for t in out:
        cnt = {}
        for n, _ in t.used:
            cnt[n] = cnt.get(n, 0) + 1
        for n, k in cnt.items():
            deg[n] = max(deg.get(n, 0), k)
    return SVal(w, a.shape, merge(out), deg)


def merge_powers(a):
    """s_i^e * s_i^e -> s_i^(2e) for a vector of nonnegative numbers that occurs exactly twice, always at one position
    (after a rewriting by contracts has identified the two positions); None when nothing changes."""
    w = a.world
    for n in sorted(names_in(a)):
        s = w.syms[n]
        if s.pow_base is None or len(s.shape) != 1 or any(w.syms[m].pow_base is s.pow_base and m != n for m in names_in(a)):
            continue
        ns = pow_symbol(s.pow_base, 2 * s.pow_exp)
        out = []
        for t in a.terms:
            cs = sorted(c for m, c in t.used if m == n)
            if cs != [0, 1]:
                break
            p0, p1 = s.positions(0)[0], s.positions(1)[0]
            pos = ns.positions(0)[0]
            if not isinstance(p0, int):
                if not unsat_term(w, t.with_(conds=t.conds + (p0 != p1,))):
                    break
                r = subst_term(t.conds, t.axes, p0, pos)
                r = r and subst_term(r[0], r[1], p1, pos)
                if r is None:
                    continue
                t = t.with_(conds=tuple(r[0]), axes=tuple(r[1]))
            out.append(t.with_(num=(t.num[0] / 2, t.num[1] / 2), used=(t.used - {(n, 0), (n, 1)}) | {(ns.name, 0)}))
        else:
            deg = {k: v for k, v in a.deg.items() if k != n}
            deg[ns.name] = 1
            return SVal(w, a.shape, merge(out), deg)
    return None


def rewrite(a, probes, g, pattern, rhs):
    """a == L(pattern) for a linear L  ->  L(rhs); None when a does not have that form. `probes` maps the symbols of
    the pattern to values under which the pattern equals the free symbol g."""
    if any(degree_in(a, n) != 1 for n in probes):
        return None
    x = a
    for n, v in probes.items():
        x = replace(x, n, v)
    back = replace(x, g.name, pattern)
    if not same(back, a):
        return None
    return replace(x, g.name, rhs)
