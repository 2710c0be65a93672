"""SymTensor: a torch.Tensor subclass whose kernels are symbolic.

The repository's real code runs unmodified: torch's own front end (argument parsing, broadcasting,
type promotion, shape inference on the meta device, decomposition of composite operators) is kept and
only the ATen kernels are replaced by operations of the symbolic domain.
"""
import ast
import builtins
import contextlib
import dis
import itertools
from fractions import Fraction
import math
import sys
import torch
from torch.utils._python_dispatch import TorchDispatchMode, _disable_current_modes
from torch.overrides import TorchFunctionMode
from torch.utils._pytree import tree_map

from . import sdom
from .sdom import SVal, Unsupported, Sym, Term, ONE
from .z3env import z3
from . import paths
from .paths import SymBool, SymInt

ENGINE = None


@contextlib.contextmanager
def native():
    """Run ordinary torch kernels inside a dispatch mode: lazy conjugation and negation have to be materialised there too."""
    with torch._C._PreserveDispatchKeyGuard():
        torch._C._dispatch_tls_set_dispatch_key_excluded(torch._C.DispatchKey.Conjugate, False)
        torch._C._dispatch_tls_set_dispatch_key_excluded(torch._C.DispatchKey.Negative, False)
        yield


def eng():
    if ENGINE is None:
        raise Unsupported("symbolic tensor used outside the engine")
    return ENGINE


class SymScalar:
    """The python number obtained from .item() of a symbolic 0-d tensor, or a symbolic parameter."""

    def __init__(self, val, is_int=False):
        self.val = val
        self.is_int = is_int

    def t(self):
        with _disable_current_modes():
            m = torch.empty((), dtype=torch.int64 if self.is_int else torch.float64, device="meta")
        return SymTensor.make(self.val, m)

    def _bin(self, o, f):
        if isinstance(o, SymScalar):
            o = o.t()
        if isinstance(o, torch.Tensor):
            return f(self.t(), o)
        if isinstance(o, (int, float, Fraction)):
            r = f(self.t(), float(o) if isinstance(o, Fraction) else o)
        else:
            return NotImplemented
        return r

    def _wrap(self, r):
        if isinstance(r, SymTensor) and r.dim() == 0:
            return SymScalar(r.v)
        return r

    def _ar(self, o, f):
        r = self._bin(o, f)
        if isinstance(o, torch.Tensor):
            return r
        return r if r is NotImplemented else self._wrap(r)

    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    def __radd__(self, o): return self._ar(o, lambda a, b: b + a)
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: b - a)
    def __mul__(self, o): return self._ar(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._ar(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._ar(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._ar(o, lambda a, b: b / a)
    def __neg__(self): return SymScalar(sdom.scale(self.val, (Fraction(-1), Fraction(0))))
    def __pos__(self): return self
    def __abs__(self): return SymScalar(eng().dom.abs_(self.val))
    def __pow__(self, o): return self._ar(o, lambda a, b: a ** b)
    def __lt__(self, o): return bool(self._bin(o, lambda a, b: a < b))
    def __le__(self, o): return bool(self._bin(o, lambda a, b: a <= b))
    def __gt__(self, o): return bool(self._bin(o, lambda a, b: a > b))
    def __ge__(self, o): return bool(self._bin(o, lambda a, b: a >= b))

    def __eq__(self, o):
        r = self._bin(o, lambda a, b: a == b)
        return r if r is NotImplemented else bool(r)

    def __ne__(self, o):
        r = self._bin(o, lambda a, b: a != b)
        return r if r is NotImplemented else bool(r)
    __hash__ = None

    def __float__(self):
        c = eng().dom.const_scalar(self.val)
        if c is not None:
            return float(c[0])
        f = sys._getframe(1)
        i = f.f_lasti
        if f.f_code.co_code[i] == dis.opmap["BINARY_OP"] and \
                [x[1] for x in dis._nb_ops][f.f_code.co_code[i + 1]] in ("%", "%="):
            return math.nan                  # "%f" % x: only the text of a message
        return eng().python_float(self)

    def __round__(self, n=None):
        return SymScalar(eng().dom.opaque_scalar("round", (n,), [self.val], positive=False))

    def __index__(self):
        return eng().to_index(self.val)
    __int__ = __index__

    def __bool__(self):
        return bool(self.t())

    @property
    def real(self):
        return SymScalar(eng().dom.real_(self.val))

    def item(self):
        return self

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "<sym>"

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        return torch_function(func, types, args, kwargs or {})


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __call__(cls, *a):
        if a and isinstance(a[0], SymTensor):
            a = (a[0].item(),)
        if a and isinstance(a[0], SymScalar):
            return a[0]
        return builtins.float(*a)


class SymFloat(metaclass=_FloatMeta):
    """float() inside the code under check: a symbolic number stays symbolic."""


def _only_calls_float(mod):
    f = getattr(mod, "__file__", None)
    if not f or not f.endswith(".py"):
        return False
    if f not in _FLOATS:
        with open(f) as h:
            tree = ast.parse(h.read())
        ok = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Name) and n.func.id == "isinstance":
                    ok.update(id(x) for a in n.args for x in ast.walk(a))
                ok.add(id(n.func))
        _FLOATS[f] = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "float" for n in ast.walk(tree)) and \
            all(id(n) in ok for n in ast.walk(tree) if isinstance(n, ast.Name) and n.id == "float")
    return _FLOATS[f]


_FLOATS = {}


class SymTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, val, meta, base=None, fn=None, scatter=None):
        mem = ENGINE.memory if ENGINE is not None else None
        if mem is not None:
            # compiled code takes addresses: the tensor gets (unused) storage of its own, or shares its base's
            b, own = mem.backing(meta, base)
            with _disable_current_modes():
                r = torch.Tensor._make_subclass(cls, b)
            r._mem = b
            if own:
                mem.own(r, b)
            return r
        r = torch.Tensor._make_wrapper_subclass(cls, meta.shape, strides=meta.stride(), dtype=meta.dtype,
                                                device="cpu")
        return r

    def __init__(self, val, meta, base=None, fn=None, scatter=None):
        self._meta = meta
        self._val = val
        self._ver = 0
        self._vbase, self._fn, self._scatter = base, fn, scatter
        self._cver = -1

    @classmethod
    def make(cls, val, meta):
        return cls(val, meta)

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        return torch_function(func, types, args, kwargs or {})

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return eng().dispatch(func, args, kwargs or {})

    def version(self):
        return self._ver if self._vbase is None else self._vbase.version()

    @property
    def v(self):
        if self._vbase is None:
            return self._val
        b = self._vbase.version()
        if self._cver != b:
            self._val = self._fn(self._vbase.v)
            self._cver = b
        return self._val

    def write(self, val):
        if self._vbase is None:
            self._val = val
            self._ver += 1
        else:
            if self._scatter is None:
                raise Unsupported("in-place write through a non-writable view")
            if val.key() == self.v.key():
                return                       # nothing changes
            self._vbase.write(self._scatter(self._vbase.v, val))

    def __deepcopy__(self, memo):
        r = SymTensor(self.v, torch.empty_strided(self._meta.size(), self._meta.stride(), dtype=self._meta.dtype,
                                                  device="meta"))
        memo[id(self)] = r
        return r

    def __reduce_ex__(self, proto):
        raise Unsupported("pickling a symbolic tensor")


_TF = {}


def tf(*names):
    def deco(f):
        for n in names:
            o = torch
            try:
                for p in n.split("."):
                    o = getattr(o, p)
            except AttributeError:
                continue
            _TF[o] = f
        return f
    return deco


def has_symbolic_scalar(x):
    if isinstance(x, (SymScalar, SymInt)):
        return True
    if isinstance(x, (tuple, list)):
        return any(has_symbolic_scalar(y) for y in x)
    return False


def lower_scalars(x):
    if isinstance(x, SymScalar):
        return x.t()
    if isinstance(x, SymInt):
        return x.__index__()
    if isinstance(x, (tuple, list)) and has_symbolic_scalar(x):
        return type(x)(lower_scalars(y) for y in x)
    return x


def torch_function(func, types, args, kwargs):
    h = _TF.get(func)
    if h is None:
        h = _TF.get(getattr(func, "__wrapped__", None)) if not isinstance(func, type) else None
    if h is not None:
        r = h(func, args, kwargs)
        if r is not NotImplemented:
            return r
    if any(has_symbolic_scalar(a) for a in args) or any(has_symbolic_scalar(a) for a in kwargs.values()):
        args = tuple(lower_scalars(a) for a in args)
        kwargs = {k: lower_scalars(v) for k, v in kwargs.items()}
    with torch._C.DisableTorchFunctionSubclass():
        return func(*args, **kwargs)


@tf("Tensor.item", "Tensor.__float__", "Tensor.__complex__")
def _item(func, args, kwargs):
    x = args[0]
    return eng().item(x) if func is torch.Tensor.item else eng().py_number(x, func)


@tf("Tensor.__bool__", "is_nonzero", "Tensor.is_nonzero")
def _bool(func, args, kwargs):
    return eng().to_bool(args[0])


@tf("Tensor.__index__", "Tensor.__int__", "Tensor.__long__")
def _index(func, args, kwargs):
    return eng().to_index(args[0].v)


@tf("Tensor.tolist")
def _tolist(func, args, kwargs):
    x = args[0]
    if x.dim() == 0:
        return eng().item(x)
    return [y.tolist() for y in x]


@tf("Tensor.__repr__", "Tensor.__str__")
def _repr(func, args, kwargs):
    return f"<symbolic {tuple(args[0].shape)}>"


@tf("Tensor.__format__")
def _fmt(func, args, kwargs):
    return f"<symbolic {tuple(args[0].shape)}>"


@tf("Tensor.numpy", "Tensor.data_ptr", "Tensor.__array__")
def _np(func, args, kwargs):
    raise Unsupported(f"{func.__name__} of a symbolic tensor")


@tf("Tensor.__deepcopy__")
def _dc(func, args, kwargs):
    return SymTensor.__deepcopy__(*args)


@tf("Tensor.__reduce_ex__")
def _rex(func, args, kwargs):
    raise Unsupported("pickling a symbolic tensor")


@tf("Tensor.cpu", "Tensor.cuda")
def _cpu(func, args, kwargs):
    return args[0]


@tf("real", "Tensor.real.__get__")
def _real(func, args, kwargs):
    x = args[0]
    if not x.dtype.is_complex:
        return x
    return eng().wrap_new(eng().dom.real_(x.v), x.shape, torch.float64 if x.dtype == torch.complex128 else torch.float32)


@tf("imag", "Tensor.imag.__get__")
def _imag(func, args, kwargs):
    x = args[0]
    return eng().wrap_new(eng().dom.imag_(x.v), x.shape, torch.float64 if x.dtype == torch.complex128 else torch.float32)


@tf("einsum", "functional.einsum")
def _einsum(func, args, kwargs):
    eq, ops = args[0], args[1:]
    if not isinstance(eq, str):
        return NotImplemented
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = tuple(ops[0])
    return eng().einsum(eq, ops)


def _is_cplx(dt):
    return dt.is_complex


class SDomain:
    """Implements the kernels over SVal."""
    name = "S"

    def __init__(self, world):
        self.w = world

    # ---- scalars ----
    def const_scalar(self, v):
        if v.zint is not None or v.zbool is not None:
            return None
        tot = [Fraction(0), Fraction(0)]
        for t in v.terms:
            if t.mono or t.used or t.conds or t.bound:
                return None
            tot[0] += t.num[0]
            tot[1] += t.num[1]
        return tuple(tot)

    def scalar_mono(self, v):
        """(num, mono) when v (0-d) is a single opaque monomial."""
        if v.zint is None and v.zbool is None and len(v.terms) == 1:
            t = v.terms[0]
            if not t.used and not t.conds and not t.bound:
                return t.num, t.mono
        return None

    def opaque_scalar(self, op, params, args, shape=(), positive=True):
        v = self.memo(op, params, args, lambda: self._new_scalar(op, args, positive))
        return v

    def _new_scalar(self, op, args, positive):
        n = self.w.unique(op)
        self.w.scalars[n] = {"op": op, "args": args, "positive": positive}
        return SVal(self.w, (), [Term(ONE, ((n, Fraction(1)),), (), (), frozenset(), {})], {})

    def memo(self, op, params, args, new):
        l = self.w.memo.setdefault((op, str(params), tuple(a.shape for a in args)), [])
        for a2, res in l:
            if all(sdom.names_in(x) == sdom.names_in(y) for x, y in zip(a2, args)) and all(sdom.same(x, y) for x, y in zip(a2, args)):
                return res
        r = new()
        l.append((args, r))
        return r

    def param(self, name):
        n = self.w.unique(name)
        self.w.scalars[n] = {"op": "param", "args": [], "positive": True}
        return SVal(self.w, (), [Term(ONE, ((n, Fraction(1)),), (), (), frozenset(), {})], {})

    def fresh(self, name, shape, dtype, **kw):
        s = self.w.symbol(name, tuple(shape), real=not _is_cplx(dtype), **kw)
        return sdom.from_symbol(s), s

    def sym_fn(self, op, params, args, shape, dtype, **kw):
        """fresh symbol op(args), memoised"""
        return self.memo(op, params, args, lambda: self.fresh(op, shape, dtype, **kw)[0])

    # ---- selection analysis for elementwise powers ----
    def selection(self, v):
        """(symbol, num, mono) if every entry of v is num*mono*(one entry of one vector symbol)."""
        if not v.terms or v.zint is not None or v.zbool is not None:
            return None
        syms = set()
        cols = set()
        co = set()
        for t in v.terms:
            if len(t.used) != 1:
                return None
            (n, c), = t.used
            syms.add(n)
            if c in cols:
                return None
            cols.add(c)
            co.add((t.num, t.mono))
        if len(syms) != 1 or len(co) != 1:
            return None
        s = self.w.syms[syms.pop()]
        if s.bar is not s or len(s.shape) != 1:
            return None
        # the position must be determined by the output index
        t = v.terms[0]
        (n, c), = t.used
        p = s.positions(c)[0]
        if not isinstance(p, int):
            names = set()
            for ax in t.axes:
                for e, _ in ax:
                    sdom.vars_in(e, names)
            det = any(not isinstance(e, int) and p.decl().name() in _vars(e) for ax in t.axes for e, _ in ax)
            if not det and not any(z3.is_eq(k) and p.decl().name() in _vars(k) for k in t.conds):
                return None
        (num, mono), = co
        return s, num, mono

    def pow_(self, v, e):
        e = Fraction(e).limit_denominator(64)
        sm = self.scalar_mono(v)
        if sm is not None:
            num, mono = self.num_pow(sm[0], e), sdom.mono_pow(sm[1], e)
            if num is not None:
                n, m2 = num
                return SVal(self.w, v.shape, [v.terms[0].with_(num=n, mono=sdom.mono_mul(mono, m2))], {})
        sel = self.selection(v)
        if sel is not None and (sel[0].nonneg or e.denominator == 1 or self.proved_nonneg(sel[0])):
            s, num, mono = sel
            np_ = self.num_pow(num, e)
            if np_ is not None:
                if s.pow_base is None:
                    sdom.pow_symbol(s, Fraction(1))
                ns = sdom.pow_symbol(s, s.pow_exp * e)
                terms = []
                for t in v.terms:
                    (n, c), = t.used
                    p, q = s.positions(c)[0], ns.positions(c)[0]
                    if isinstance(p, int):
                        conds, axes = list(t.conds), list(t.axes)
                    else:
                        conds, axes = sdom.subst_term(t.conds, t.axes, p, q)
                    terms.append(t.with_(num=np_[0], mono=sdom.mono_mul(sdom.mono_pow(mono, e), np_[1]),
                                         conds=tuple(conds), axes=tuple(axes), used=frozenset([(ns.name, c)])))
                return SVal(self.w, v.shape, terms, {ns.name: 1})
        c = self._const_full(v)
        if c is not None and e == -1:
            d = c[0] ** 2 + c[1] ** 2
            return sdom.full(self.w, v.shape, (c[0] / d, -c[1] / d))
        if not v.shape:
            if e == -1:
                o = self.opaque_scalar("scal", (), [v])
                return SVal(self.w, (), [t.with_(mono=sdom.mono_pow(t.mono, -1)) for t in o.terms], {})
            return self.opaque_scalar(f"pow{e}", (), [v])
        return self.sym_fn(f"pow[{e}]", (), [v], v.shape, torch.float64 if self.is_real(v) else torch.complex128)

    def proved_nonneg(self, s):
        """all entries of a real vector symbol are >= 0 on this path"""
        if s.bar is not s or len(s.shape) != 1 or s.shape[0] > 64 or s.pow_base not in (None, s):
            return False
        from .z3env import solve
        v, _ = solve(paths.cur().pc + [z3.Or([x < 0 for x in self.real_vars(s)])], "branch")
        return v == "unsat"

    def _const_full(self, v):
        """constant tensor with all entries equal (as made by full/ones)"""
        if len(v.terms) == 1:
            t = v.terms[0]
            if not t.used and not t.mono and not t.conds:
                seen = set()
                for ax, d in zip(t.axes, v.shape):
                    if d == 1:
                        continue
                    if len(ax) != 1 or isinstance(ax[0][0], int) or not z3.is_const(ax[0][0]):
                        return None
                    n = ax[0][0].decl().name()
                    if n not in t.bound or n in seen:
                        return None
                    seen.add(n)
                return t.num
        return None

    def is_real(self, v):
        return all(self.w.syms[n].bar is self.w.syms[n] for n in v.deg) and all(t.num[1] == 0 for t in v.terms)

    def num_pow(self, num, e):
        """(num, mono) of num**e for a positive rational num."""
        if num[1] != 0:
            if e == -1:
                d = num[0] ** 2 + num[1] ** 2
                return (num[0] / d, -num[1] / d), ()
            return None
        x = num[0]
        if e.denominator == 1:
            if x == 0 and e < 0:
                return None
            return (x ** int(e), Fraction(0)), ()
        if x < 0:
            return None
        r = x ** int(e.numerator) if x != 0 else x
        for part in ((e.denominator),):
            p = _iroot(r.numerator, e.denominator)
            q = _iroot(r.denominator, e.denominator)
            if p is not None and q is not None:
                return (Fraction(p, q), Fraction(0)), ()
        n = f"q:{x}"
        self.w.scalars[n] = {"op": "const", "value": x, "args": [], "positive": True}
        return ONE, ((n, e),)

    def abs_(self, v):
        c = self.const_scalar(v) if not v.shape else None
        if c is not None and c[1] == 0:
            return sdom.full(self.w, (), (abs(c[0]), Fraction(0)))
        if not v.shape and v.terms and v.zint is None and v.zbool is None:
            # |c * x**n * y| = |c| * |x|**n * |y| for the factors common to all terms
            common = set(v.terms[0].mono)
            for t in v.terms[1:]:
                common &= set(t.mono)
            a = abs(v.terms[0].num[0]) if len(v.terms) == 1 and v.terms[0].num[1] == 0 else None
            if common or a is not None and (a != 1 or not v.terms[0].used):
                core = SVal(self.w, (), [t.with_(num=ONE if a is not None else t.num, mono=tuple(x for x in t.mono if x not in common))
                                         for t in v.terms], v.deg)
                r = sdom.full(self.w, (), (a if a is not None else Fraction(1), Fraction(0)))
                for k, e in sorted(common):
                    sc = self.w.scalars[k]
                    x = SVal(self.w, (), [Term(ONE, ((k, Fraction(1)),), (), (), frozenset(), {})], {})
                    x = self.pow_(self.abs_(sc["args"][0]), e) if sc["op"] == "scal" else self.pow_(x, e) if sc["positive"] \
                        else self.pow_(self.opaque_scalar("abs", (), [x]), e)
                    r = sdom.mul(r, x)
                if core.terms[0].used or len(core.terms) > 1 or core.terms[0].mono:
                    r = sdom.mul(r, self.abs_(core))
                return r
        sel = self.selection(v)
        if sel is not None and sel[0].nonneg and sel[1][1] == 0 and sel[1][0] > 0:
            return v
        if not v.shape:
            if self.is_real(v):
                # the sign of a real number is decided on the path
                z = self.exact_cmp("lt", v, sdom.zeros(self.w, ()))
                if z is not None:
                    return sdom.scale(v, (Fraction(-1), Fraction(0))) if bool(SymBool(z[0])) else v
            for a2, res in self.w.memo.get(("abs", "()", ((),)), []):
                if sdom.names_in(a2[0]) == sdom.names_in(v) and sdom.same(a2[0], sdom.scale(v, (Fraction(-1), Fraction(0)))):
                    return res
            return self.opaque_scalar("abs", (), [v])
        return self.sym_fn("abs", (), [v], v.shape, torch.float64, nonneg=True)

    def real_(self, v):
        if self.is_real(v):
            return v
        return sdom.scale(sdom.add(v, sdom.conj(v)), (Fraction(1, 2), Fraction(0)))

    def imag_(self, v):
        d = sdom.add(v, sdom.scale(sdom.conj(v), (Fraction(-1), Fraction(0))))
        return sdom.scale(d, (Fraction(0), Fraction(-1, 2)))

    def entry_scalar(self, v):
        """a fixed entry of a nonnegative vector symbol becomes an opaque positive scalar"""
        if v.shape != () or not v.terms:
            return v
        sel = None
        for t in v.terms:
            if len(t.used) != 1 or t.bound or len(t.conds) > 1:
                return v
            (nm, c), = t.used
            s = self.w.syms[nm]
            if len(s.shape) > 1 or not s.nonneg or s.bar is not s:
                return v
            b = s.pow_base or s
            pv = s.positions(c)
            if pv and not isinstance(pv[0], int):
                if len(t.conds) != 1 or not z3.is_eq(t.conds[0]):
                    return v
                x, y = t.conds[0].children()
                if z3.is_int_value(x):
                    x, y = y, x
                if not (x.eq(pv[0]) and z3.is_int_value(y)):
                    return v
                i = y.as_long()
            else:
                if t.conds:
                    return v
                i = 0
            k = (b.name, i, s.pow_exp if s.pow_base is not None else Fraction(1), t.num, t.mono)
            if sel is not None and sel != k:
                return v
            sel = k
        n = f"{sel[0]}@{sel[1]}"
        if n not in self.w.scalars:
            self.w.scalars[n] = {"op": "entry", "args": [], "positive": True, "entry": (sel[0], sel[1])}
        return SVal(self.w, (), [Term(sel[3], sdom.mono_mul(sel[4], ((n, sel[2]),)), (), (), frozenset(), {})], {})

    # ---- entries as real numbers ----
    def real_vars(self, s):
        """z3 reals for the entries of a real vector symbol, with its ordering / sign facts assumed."""
        b = s.pow_base or s
        l = self.w.reals.get(b.name)
        if l is None:
            n = 1
            for d in b.shape:
                n *= d
            l = [z3.Real(f"{b.name}[{i}]") for i in range(n)]
            self.w.reals[b.name] = l
            ex = paths.cur()
            for x in l:
                if b.lower is not None:
                    ex.assume_unchecked(x >= z3.Q(b.lower.numerator, b.lower.denominator)
                                        if isinstance(b.lower, Fraction) else x >= b.lower)
                elif b.nonneg:
                    ex.assume_unchecked(x >= 0)
            for x, y in zip(l, l[1:]):
                if b.info == "desc":
                    ex.assume_unchecked(x >= y)
                elif b.info == "asc":
                    ex.assume_unchecked(x <= y)
        return l

    def entries(self, v, limit=4096):
        """every entry as {monomial: coefficient} over real variables; None when out of reach."""
        import itertools
        if v.zint is not None or v.zbool is not None:
            return None
        n = 1
        for d in v.shape:
            n *= d
        if n > 256:
            return None
        out = [dict() for _ in range(n)]
        for t in v.terms:
            if t.num[1] != 0:
                return None
            used = sorted(t.used)
            syms = [self.w.syms[nm] for nm, _ in used]
            if any(len(s.shape) > 1 or s.bar is not s for s in syms):
                return None
            if any(e.denominator != 1 for _, e in t.mono) or any(s.pow_base is not None and s.pow_exp.denominator != 1
                                                                 for s in syms):
                return None
            vs, dims = [], []
            for (nm, c), s in zip(used, syms):
                pv = s.positions(c)
                vs.append(pv[0] if pv and not isinstance(pv[0], int) else None)
                dims.append(s.shape[0] if s.shape else 1)
            bn = list(t.bound.values())
            tot = 1
            for d in dims + [d for _, d in bn]:
                tot *= d
            if tot > limit:
                return None
            deg = {}
            for nm, c in used:
                deg[nm] = deg.get(nm, 0) + 1
            div = 1
            for nm, k in deg.items():
                for i in range(k):
                    div *= self.w.syms[nm].colours() - i
            for combo in itertools.product(*[range(d) for d in dims + [d for _, d in bn]]):
                pairs = [(x, z3.IntVal(i)) for x, i in zip(vs + [b for b, _ in bn], combo) if x is not None]
                prep = sdom.prep_sub(pairs)
                ok = True
                for c in t.conds:
                    r = z3.simplify(sdom.fast_sub(c, prep)) if pairs else z3.simplify(c)
                    if z3.is_false(r):
                        ok = False
                        break
                    if not z3.is_true(r):
                        return None
                if not ok:
                    continue
                o = 0
                for ax, d in zip(t.axes, v.shape):
                    e = sdom.flat(ax)
                    if not isinstance(e, int):
                        r = z3.simplify(sdom.fast_sub(e, prep)) if pairs else z3.simplify(e)
                        if not z3.is_int_value(r):
                            return None
                        e = r.as_long()
                    o = o * d + e
                m = {}
                for k, e in t.mono:
                    en = self.w.scalars[k].get("entry")
                    kk = ("scalar", k) if en is None else en
                    m[kk] = m.get(kk, 0) + int(e)
                for s, i in zip(syms, combo):
                    b = s.pow_base or s
                    k = (b.name, i)
                    m[k] = m.get(k, 0) + int(s.pow_exp if s.pow_base is not None else 1)
                key = tuple(sorted((k, e) for k, e in m.items() if e))
                out[o][key] = out[o].get(key, Fraction(0)) + t.num[0] / div
        return out

    def _rvar(self, k):
        if k[0] == "scalar":
            en = self.w.scalars[k[1]].get("entry")
            if en is not None:
                return self.real_vars(self.w.syms[en[0]])[en[1]]
            x = z3.Real(f"scalar:{k[1]}")
            if k[1] not in self.w.reals:
                self.w.reals[k[1]] = [x]
                if self.w.scalars[k[1]]["positive"]:
                    paths.cur().assume_unchecked(x > 0)
            return x
        return self.real_vars(self.w.syms[k[0]])[k[1]]

    def entry_cmp(self, op, a, b):
        """z3 Bool for a op b; divisors are taken to be positive (nonzero magnitudes)."""
        d = dict(a)
        for k, c in b.items():
            d[k] = d.get(k, Fraction(0)) - c
        d = {k: c for k, c in d.items() if c}
        low = {}
        for k in d:
            for x, e in k:
                low[x] = min(low.get(x, 0), e)
        # a common factor x**n (n > 0 in every monomial) is kept; negative powers are cleared
        for x, e in low.items():
            if e < 0:
                s = None if x[0] == "scalar" else self.w.syms[x[0]]
                pos = self.w.scalars[x[1]]["positive"] if s is None else (s.nonneg or s.lower is not None)
                if not pos:
                    from .z3env import solve
                    v = self._rvar(x)
                    if solve(paths.cur().pc + [v <= 0], "branch")[0] == "unsat":
                        continue
                    if solve(paths.cur().pc + [v >= 0], "branch")[0] != "unsat":
                        return None
                    if e % 2:
                        op = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(op, op)
                    continue
                paths.cur().assume(self._rvar(x) > 0)
        tot = z3.RealVal(0)
        for k, c in d.items():
            m = dict(k)
            for x, e in low.items():
                if e < 0:
                    m[x] = m.get(x, 0) - e
            t = z3.Q(c.numerator, c.denominator)
            for x, e in m.items():
                for _ in range(e):
                    t = t * self._rvar(x)
            tot = tot + t
        return {"lt": tot < 0, "le": tot <= 0, "gt": tot > 0, "ge": tot >= 0, "eq": tot == 0, "ne": tot != 0}[op]

    def exact_cmp(self, op, a, b):
        ea, eb = self.entries(a), self.entries(b)
        if ea is None or eb is None:
            return None
        r = []
        for x, y in zip(ea, eb):
            z = self.entry_cmp(op, x, y)
            if z is None:
                return None
            r.append(z3.simplify(z))
        return r

    def compare(self, op, a, b):
        """elementwise comparison: a symbolic bool tensor (0-d: z3 Bool)"""
        sh = sdom.bshape(a.shape, b.shape)
        if sh == ():
            for x in (a, b):
                pass
            za, zb = self._zint(a), self._zint(b)
            if za is not None and zb is not None:
                e = {"lt": lambda: za < zb, "le": lambda: za <= zb, "gt": lambda: za > zb, "ge": lambda: za >= zb,
                     "eq": lambda: za == zb, "ne": lambda: za != zb}[op]()
                if isinstance(e, bool):
                    e = z3.BoolVal(e)
                return SVal(self.w, (), [], {}, zbool=e)
            ca, cb = self.const_scalar(a), self.const_scalar(b)
            if ca is not None and cb is not None:
                x, y = ca[0], cb[0]
                e = {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": ca == cb, "ne": ca != cb}[op]
                return SVal(self.w, (), [], {}, zbool=z3.BoolVal(e))
            ez = self.exact_cmp(op, a, b)
            if ez is not None:
                return SVal(self.w, (), [], {}, zbool=ez[0])
            flip = {"gt": "lt", "ge": "le"}
            if op in flip:
                op, a, b = flip[op], b, a
            # x < c*m  as  x/m < c: a positive factor moves to the other side
            for x, y in ((b, a), (a, b)):
                sm = self.scalar_mono(x)
                if sm is not None and sm[1] and all(self.w.scalars[k]["positive"] and self.w.scalars[k]["op"] != "scal" for k, _ in sm[1]):
                    inv = sdom.mono_pow(sm[1], -1)
                    x2, y2 = sdom.scale(x, ONE, inv), sdom.scale(y, ONE, inv)
                    a, b = (y2, x2) if x is b else (x2, y2)
                    break
            return self.memo("cmp_" + op, (), [a, b],
                             lambda: SVal(self.w, (), [], {}, zbool=z3.Bool(self.w.unique("cmp_" + op))))
        a, b = sdom.expand(a, sh), sdom.expand(b, sh)
        n = "cmp_" + op
        ez = self.exact_cmp(op, a, b)
        if ez is not None:
            r, sy = self.fresh(n, sh, torch.float64, info=("cmp", op, a, b))
            self.w.bools[sy.name] = (r, ez)
            return r
        r = self.memo(n, (), [a, b], lambda: self.fresh(n, sh, torch.float64, info=("cmp", op, a, b))[0])
        return r

    def _zint(self, v):
        if v.zint is not None:
            return v.zint
        c = self.const_scalar(v)
        if c is not None and c[1] == 0 and c[0].denominator == 1:
            return int(c[0])
        return None

    def count(self, v):
        """number of true entries of a symbolic bool tensor: an integer in [0, numel]"""
        n = 1
        for d in v.shape:
            n *= d
        nm = next(iter(v.deg), None)
        if nm in self.w.bools:
            r, ez = self.w.bools[nm]
            if r.shape == v.shape and r.key() == v.key():
                return SVal(self.w, (), [], {}, zint=z3.simplify(z3.Sum([z3.If(z, 1, 0) for z in ez])))

        def new():
            k = z3.Int(self.w.unique("count"))
            lo = eng().count_lower_bound(v)
            paths.cur().assume(z3.And(k >= lo, k <= n))
            return SVal(self.w, (), [], {}, zint=k)
        return self.memo("count", (), [v], new)


def _vars(e):
    s = set()
    sdom.vars_in(e, s)
    return s


def _iroot(n, k):
    r = round(n ** (1.0 / k)) if n < 2 ** 52 else None
    if r is None:
        return None
    for c in (r - 1, r, r + 1):
        if c >= 0 and c ** k == n:
            return c
    return None


INERT = {"record_stream", "_linalg_check_errors", "_assert_async"}


class Engine(TorchDispatchMode):
    """Active during symbolic execution."""

    def __init__(self, world):
        super().__init__()
        self.world = world
        self.dom = SDomain(world)
        self.ops = {}
        self.fail_ops = None        # callable(opname) -> bool: inject a LinAlgError
        self.float_hook = None
        self.count_lb = 1
        self.memory = None          # set while compiled code runs (cutensor.Session)
        self.name_solutions = False  # give what an (opaque) inverse is applied to a name of its own: equal solutions, equal names

    def count_lower_bound(self, v):
        return self.count_lb

    # -- python scalars --
    def const_of(self, x):
        v = x.v
        c = self.dom.const_scalar(v)
        if c is None:
            return None
        if x.dtype.is_complex:
            return complex(float(c[0]), float(c[1]))
        if x.dtype.is_floating_point:
            return float(c[0])
        if x.dtype == torch.bool:
            return bool(c[0])
        return int(c[0])

    def item(self, x):
        if x.numel() != 1:
            raise RuntimeError(f"a Tensor with {x.numel()} elements cannot be converted to Scalar")
        v = x.v
        if v.shape:
            v = sdom.reshape(v, ())
        if v.zint is not None:
            return SymInt(v.zint)
        if v.zbool is not None:
            return bool(SymBool(v.zbool))
        c = self.dom.const_scalar(v)
        if c is not None:
            if x.dtype.is_complex:
                return complex(float(c[0]), float(c[1]))
            return float(c[0]) if x.dtype.is_floating_point else int(c[0])
        return SymScalar(v)

    def py_number(self, x, func):
        r = self.item(x)
        if isinstance(r, SymInt):
            return float(r.__index__())
        if isinstance(r, SymScalar):
            return self.python_float(r)
        return r

    def python_float(self, s):
        if self.float_hook is not None:
            return self.float_hook(s)
        raise Unsupported("float() of a symbolic value")

    def to_index(self, v):
        if v.shape:
            v = sdom.reshape(v, ())
        if v.zint is not None:
            return SymInt(v.zint).__index__()
        c = self.dom.const_scalar(v)
        if c is not None:
            return int(c[0])
        raise Unsupported("integer conversion of a symbolic value")

    def to_bool(self, x):
        v = x.v
        if v.shape:
            v = sdom.reshape(v, ())
        if v.zbool is not None:
            return bool(SymBool(v.zbool))
        if v.zint is not None:
            return bool(SymInt(v.zint))
        c = self.dom.const_scalar(v)
        if c is not None:
            return c != (0, 0)
        sm = self.dom.scalar_mono(v)
        if sm is not None and all(self.world.scalars[k]["op"] == "param" and self.world.scalars[k]["positive"] for k, _ in sm[1]):
            return sm[0] != (0, 0)           # positive inputs times a constant
        z = self.dom.memo("nonzero", (), [v],
                          lambda: SVal(self.world, (), [], {}, zbool=z3.Bool(self.world.unique("nonzero"))))
        return bool(SymBool(z.zbool))

    # -- wrapping --
    def wrap_new(self, val, shape, dtype):
        with _disable_current_modes():
            m = torch.empty(tuple(shape), dtype=dtype, device="meta")
        return SymTensor(val, m)

    def lift(self, x):
        if isinstance(x, SymTensor):
            return x.v
        if isinstance(x, torch.Tensor):
            with _disable_current_modes(), native():
                if x.is_conj():
                    x = x.resolve_conj()
                if x.is_neg():
                    x = x.resolve_neg()
                return sdom.from_concrete(self.world, x)
        if isinstance(x, SymScalar):
            return x.val
        if isinstance(x, (int, float, complex, bool)):
            if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
                raise Unsupported("infinite constant")
            return sdom.full(self.world, (), sdom.to_frac(x))
        raise Unsupported(f"operand {type(x)}")

    def meta_of(self, x):
        if isinstance(x, SymTensor):
            return x._meta
        if isinstance(x, torch.Tensor):
            return torch.empty_strided(x.size(), x.stride(), dtype=x.dtype, device="meta")
        if isinstance(x, torch.device):
            return torch.device("meta")
        return x

    def einsum(self, eq, ops):
        self.count_op("einsum")
        eq = eq.replace(" ", "")
        with _disable_current_modes():
            metas = [self.meta_of(o) for o in ops]
            metas = [m if m.device.type == "meta" else m for m in metas]
            out = torch.einsum(eq, *metas)
        if "->" in eq:
            lhs, rhs = eq.split("->")
        else:
            lhs = eq
            from collections import Counter
            c = Counter(ch for ch in lhs if ch.isalpha())
            rhs = "".join(sorted(ch for ch in c if c[ch] == 1))
        subs = lhs.split(",")
        vals = [self.lift(o) for o in ops]
        if "." in eq:
            nell = max(len(v.shape) - (len(s) - 3) for v, s in zip(vals, subs) if "..." in s)
            ell = [f"@{i}" for i in range(nell)]

            def ex(s, n=None):
                if "..." not in s:
                    return tuple(s)
                a, b = s.split("...")
                k = (n - len(a) - len(b)) if n is not None else nell
                return tuple(a) + tuple(ell[nell - k:]) + tuple(b)
            sl = [ex(s, len(v.shape)) for s, v in zip(subs, vals)]
            ol = ex(rhs)
        else:
            sl, ol = [tuple(s) for s in subs], tuple(rhs)
        v = self.dom_contract(vals, sl, ol)
        return SymTensor(v, out)

    def dom_contract(self, vals, subs, out):
        r = sdom.contract(vals, subs, out)
        if self.name_solutions and len(vals) == 2 and out and any(self.inverse_symbol(v) for v in vals):
            dt = torch.float64 if all(s.bar is s for t in r.terms for s in (self.world.syms[n] for n, _ in t.used)) else torch.complex128
            r = self.dom.sym_fn("solution", (), [r], r.shape, dt)
        return r

    def inverse_symbol(self, v):
        return v.zint is None and v.zbool is None and bool(v.terms) and all(len(t.used) == 1 and next(iter(t.used))[0].startswith(("inv", "pinv")) for t in v.terms)

    def count_op(self, n):
        self.ops[n] = self.ops.get(n, 0) + 1

    # -- dispatch --
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return self.dispatch(func, args, kwargs or {})

    def dispatch(self, func, args, kwargs):
        name = func._overloadpacket.__name__
        flat = []
        tree_map(flat.append, (args, kwargs))
        tens = [x for x in flat if isinstance(x, torch.Tensor)]
        anysym = any(isinstance(x, SymTensor) for x in tens)
        if not anysym and name not in FACTORIES and name != "lift_fresh":
            with native():
                return func(*args, **kwargs)
        if name == "lift_fresh":
            x = args[0]
            if isinstance(x, SymTensor) or not (x.dtype.is_floating_point or x.dtype.is_complex):
                return x if isinstance(x, SymTensor) else func(*args, **kwargs)
            with _disable_current_modes():
                return SymTensor(self.lift(x), torch.empty(x.shape, dtype=x.dtype, device="meta"))
        self.count_op(name)
        with _disable_current_modes():
            return self.dispatch2(func, name, args, kwargs)

    def run_meta(self, func, args, kwargs):
        ma = tree_map(self.meta_of, args)
        mk = dict(tree_map(self.meta_of, kwargs))
        return func(*ma, **mk)

    def dispatch2(self, func, name, args, kwargs):
        if name in INERT:
            return None
        if name in ("_local_scalar_dense", "item"):
            c = self.const_of(args[0])
            if c is not None:
                return c
            if args[0].dtype == torch.bool:
                return self.to_bool(args[0])
            if not args[0].dtype.is_floating_point and not args[0].dtype.is_complex:
                return self.to_index(args[0].v)
            raise Unsupported("python number from a symbolic tensor at the dispatcher")
        inplace = name.endswith("_") and not name.endswith("__")
        stem = name[:-1] if inplace else name
        h = HANDLERS.get(stem)
        if name in FACTORIES:
            kw = dict(kwargs)
            if kw.get("layout") is not None:
                kw.pop("layout", None)
            kw.pop("pin_memory", None)
            kw.pop("generator", None)
            kw["device"] = "meta"
            margs = tree_map(self.meta_of, args)
            mout = func(*margs, **kw)
            val = FACTORIES[name](self, args, kwargs, mout)
            return SymTensor(val, mout)
        if name in VIEWS:
            mout = self.run_meta(func, args, kwargs)
            base = args[0]
            if not isinstance(base, SymTensor):
                return func(*args, **kwargs)
            if isinstance(mout, (list, tuple)):
                return self.multi_view(func, name, args, kwargs, mout)
            fn, sc = VIEWS[name](self, base, args, kwargs, mout)
            if name == "_conj":
                mout = torch.empty(mout.shape, dtype=mout.dtype, device="meta") if mout.is_conj() else mout
            return SymTensor(None, mout, base=base, fn=fn, scatter=sc)
        if h is None:
            try:
                r = func.decompose(*args, **kwargs)
            except Exception as e:
                if isinstance(e, Unsupported):
                    raise
                raise Unsupported(f"operator {func}: {type(e).__name__} {e}")
            if r is NotImplemented:
                raise Unsupported(f"operator {func}")
            return r
        if inplace:
            tgt = args[0]
            if not isinstance(tgt, SymTensor):
                raise Unsupported(f"in-place {name} on a concrete tensor with a symbolic operand")
            self.run_meta(func, args, kwargs)
            v = h(self, args, kwargs, tgt._meta)
            if not tgt.dtype.is_complex and any(isinstance(x, torch.Tensor) and x.dtype.is_complex for x in args[1:]) \
                    and not self.dom.is_real(v):
                v = self.dom.real_(v)
            v = sdom.expand(v, tgt.shape) if tuple(v.shape) != tuple(tgt.shape) else v
            tgt.write(v)
            return tgt
        mout = self.run_meta(func, args, kwargs)
        v = h(self, args, kwargs, mout)
        if isinstance(v, (tuple, list)):
            return type(mout)(SymTensor(x, m) if not isinstance(x, torch.Tensor) else x for x, m in zip(v, mout)) \
                if type(mout) in (tuple, list) else tuple(SymTensor(x, m) for x, m in zip(v, mout))
        if isinstance(v, torch.Tensor):
            return v
        return SymTensor(v, mout)

    def multi_view(self, func, name, args, kwargs, mout):
        outs = []
        base = args[0]
        fns = VIEWS[name](self, base, args, kwargs, mout)
        for (fn, sc), m in zip(fns, mout):
            outs.append(SymTensor(None, m, base=base, fn=fn, scatter=sc))
        return outs

    def linalg(self, op, params, arg_vals, shapes_dtypes, kws=None, record=True):
        """fresh symbols for a factorisation, memoised on semantically equal arguments."""
        if self.fail_ops is not None and self.fail_ops(op):
            self.world.records.append({"op": op, "params": params, "args": arg_vals, "outs": None, "failed": True,
                                       "dts": [s[2] for s in shapes_dtypes]})
            raise torch.linalg.LinAlgError(f"injected failure of {op}")
        kws = kws or [{}] * len(shapes_dtypes)

        def new():
            outs = []
            for (suffix, shape, dtype), kw in zip(shapes_dtypes, kws):
                outs.append(self.dom.fresh(f"{op}{suffix}", shape, dtype, **kw)[0])
            return outs
        outs = self.dom.memo(op, params, arg_vals, new)
        if record:
            self.world.records.append({"op": op, "params": params, "args": arg_vals, "outs": outs, "failed": False,
                                       "dts": [s[2] for s in shapes_dtypes]})
        return outs


# ---------------------------------------------------------------------------------------------------
FACTORIES = {}
VIEWS = {}
HANDLERS = {}


def factory(*n):
    def d(f):
        for x in n:
            FACTORIES[x] = f
        return f
    return d


def view(*n):
    def d(f):
        for x in n:
            VIEWS[x] = f
        return f
    return d


def op(*n):
    def d(f):
        for x in n:
            HANDLERS[x] = f
        return f
    return d


@factory("empty", "empty_like", "new_empty", "empty_strided", "new_empty_strided")
def _f_empty(e, args, kw, m):
    return e.dom.fresh("uninit", m.shape, m.dtype)[0]


@factory("rand", "randn", "rand_like", "randn_like")
def _f_rand(e, args, kw, m):
    v = None
    if e.world.random_state is not None:          # a generator in a given state: the same draws every time
        e.world.random_state[1] += 1
        key = (*e.world.random_state, tuple(m.shape), m.dtype)
        v = e.world.drawn.get(key)
    if v is None:
        v = e.dom.fresh("random", m.shape, m.dtype)[0]
        if e.world.random_state is not None:
            e.world.drawn[key] = v
    e.world.randoms.append((v, m))
    return v


@factory("zeros", "zeros_like", "new_zeros")
def _f_zeros(e, args, kw, m):
    return sdom.zeros(e.world, tuple(m.shape))


@factory("ones", "ones_like", "new_ones")
def _f_ones(e, args, kw, m):
    return sdom.full(e.world, tuple(m.shape), ONE)


@factory("full", "full_like", "new_full")
def _f_full(e, args, kw, m):
    x = args[2] if FACTORIES is None else (args[-1] if "fill_value" not in kw else kw["fill_value"])
    return sdom.full(e.world, tuple(m.shape), sdom.to_frac(x))


@factory("eye")
def _f_eye(e, args, kw, m):
    return sdom.eye(e.world, m.shape[0], m.shape[1])


@factory("scalar_tensor")
def _f_st(e, args, kw, m):
    return e.lift(args[0])


# -- views --
@view("view", "_unsafe_view", "reshape", "_reshape_alias")
def _v_view(e, base, args, kw, m):
    sh, bs = tuple(m.shape), tuple(base.shape)
    return (lambda b: sdom.reshape(b, sh)), (lambda b, n: sdom.reshape(n, bs))


@view("permute")
def _v_perm(e, base, args, kw, m):
    p = [x % base.dim() for x in args[1]]
    inv = [p.index(i) for i in range(len(p))]
    return (lambda b: sdom.permute(b, p)), (lambda b, n: sdom.permute(n, inv))


@view("transpose", "swapaxes")
def _v_tr(e, base, args, kw, m):
    n = base.dim()
    p = list(range(n))
    i, j = (args[1] % n, args[2] % n) if n else (0, 0)
    if n:
        p[i], p[j] = p[j], p[i]
    return (lambda b: sdom.permute(b, p)), (lambda b, x: sdom.permute(x, p))


@view("t")
def _v_t(e, base, args, kw, m):
    p = list(range(base.dim()))[::-1]
    return (lambda b: sdom.permute(b, p)), (lambda b, x: sdom.permute(x, p))


@view("alias", "detach", "lift_fresh", "contiguous_view")
def _v_alias(e, base, args, kw, m):
    return (lambda b: b), (lambda b, n: n)


@view("_conj", "conj")
def _v_conj(e, base, args, kw, m):
    if not base.dtype.is_complex:
        return (lambda b: b), (lambda b, n: n)
    return e.conj_fn(), (lambda b, n: e.conj_fn()(n))


def _conj_fn(self):
    return sdom.conj


Engine.conj_fn = _conj_fn


@view("unsqueeze", "squeeze", "flatten", "unflatten")
def _v_unsq(e, base, args, kw, m):
    sh, bs = tuple(m.shape), tuple(base.shape)
    return (lambda b: sdom.reshape(b, sh)), (lambda b, n: sdom.reshape(n, bs))


@view("expand")
def _v_exp(e, base, args, kw, m):
    sh = tuple(m.shape)
    return (lambda b: sdom.expand(b, sh)), None


@view("select")
def _v_sel(e, base, args, kw, m):
    dim, i = args[1] % base.dim(), args[2]
    n = base.shape[dim]
    if i < 0:
        i += n
    return (lambda b: e.dom.entry_scalar(sdom.select(b, dim, i))), \
           (lambda b, x: sdom.add(sdom.mask_out_slice(b, dim, i, i + 1), sdom.unselect(x, dim, n, i)))


@view("slice")
def _v_slice(e, base, args, kw, m):
    a = list(args) + [None] * (5 - len(args))
    dim = a[1] if a[1] is not None else 0
    dim %= base.dim()
    n = base.shape[dim]
    start = 0 if a[2] is None else a[2]
    stop = n if a[3] is None else a[3]
    step = 1 if a[4] is None else a[4]
    if start < 0:
        start = max(0, start + n)
    if stop < 0:
        stop = max(0, stop + n)
    start, stop = min(start, n), min(stop, n)
    stop = max(start, stop)

    def sc(b, x):
        # masking an opaque whole-axis write keeps only the new value
        if start == 0 and stop == n and step == 1:
            return x
        return sdom.add(sdom.mask_out_slice(b, dim, start, stop, step), sdom.unslice(x, dim, n, start, step))
    return (lambda b: sdom.slice_(b, dim, start, stop, step)), sc


@view("diagonal")
def _v_diag(e, base, args, kw, m):
    a = list(args) + [0, 0, 1][len(args) - 1:]
    off, d1, d2 = a[1], a[2] % base.dim(), a[3] % base.dim()
    off = kw.get("offset", off)
    if off != 0 or base.shape[d1] != base.shape[d2]:
        raise Unsupported("diagonal with offset")
    return (lambda b: sdom.diagonal(b, d1, d2)), None


@view("split", "split_with_sizes", "chunk", "unbind")
def _v_split(e, base, args, kw, m):
    name_unbind = len(m) and m[0].dim() == base.dim() - 1
    dim = (args[2] if len(args) > 2 else kw.get("dim", 0)) if not name_unbind else \
        (args[1] if len(args) > 1 else kw.get("dim", 0))
    dim %= base.dim()
    out = []
    pos = 0
    n = base.shape[dim]
    for x in m:
        if name_unbind:
            i = pos
            out.append(((lambda b, i=i: sdom.select(b, dim, i)),
                        (lambda b, y, i=i: sdom.add(sdom.mask_out_slice(b, dim, i, i + 1), sdom.unselect(y, dim, n, i)))))
            pos += 1
        else:
            k = x.shape[dim]
            out.append(((lambda b, i=pos, k=k: sdom.slice_(b, dim, i, i + k)),
                        (lambda b, y, i=pos, k=k: sdom.add(sdom.mask_out_slice(b, dim, i, i + k), sdom.unslice(y, dim, n, i)))))
            pos += k
    return out


# -- plain operators --
@op("clone", "contiguous", "_to_copy", "to", "resolve_conj", "resolve_neg", "positive")
def _o_clone(e, args, kw, m):
    v = e.lift(args[0])
    dt = kw.get("dtype")
    if dt is not None and not dt.is_complex and args[0].dtype.is_complex:
        v = e.dom.real_(v)
    return v


@op("copy")
def _o_copy(e, args, kw, m):
    return sdom.expand(e.lift(args[1]), tuple(args[0].shape))


@op("fill")
def _o_fill(e, args, kw, m):
    return sdom.expand(e.lift(args[1]), tuple(args[0].shape))


@op("zero")
def _o_zero(e, args, kw, m):
    return sdom.zeros(e.world, tuple(args[0].shape))


@op("add")
def _o_add(e, args, kw, m):
    b = e.lift(args[1])
    al = kw.get("alpha", 1)
    if al != 1:
        b = sdom.mul(b, e.lift(al))
    return sdom.add(e.lift(args[0]), b)


@op("sub")
def _o_sub(e, args, kw, m):
    b = sdom.mul(e.lift(args[1]), e.lift(-kw.get("alpha", 1)))
    return sdom.add(e.lift(args[0]), b)


@op("rsub")
def _o_rsub(e, args, kw, m):
    b = sdom.mul(e.lift(args[0]), e.lift(-kw.get("alpha", 1)))
    return sdom.add(e.lift(args[1]), b)


@op("addcmul")
def _o_addcmul(e, args, kw, m):
    v = sdom.mul(e.lift(args[1]), e.lift(args[2]))
    return sdom.add(e.lift(args[0]), sdom.mul(v, e.lift(kw.get("value", 1))))


@op("mul")
def _o_mul(e, args, kw, m):
    return sdom.mul(e.lift(args[0]), e.lift(args[1]))


@op("div", "true_divide")
def _o_div(e, args, kw, m):
    if kw.get("rounding_mode"):
        raise Unsupported("div rounding")
    return sdom.mul(e.lift(args[0]), e.dom.pow_(e.lift(args[1]), -1))


@op("neg")
def _o_neg(e, args, kw, m):
    return sdom.scale(e.lift(args[0]), (Fraction(-1), Fraction(0)))


@op("conj_physical")
def _o_conjp(e, args, kw, m):
    return e.conj_fn()(e.lift(args[0]))


@op("abs")
def _o_abs(e, args, kw, m):
    return e.dom.abs_(e.lift(args[0]))


@op("sqrt")
def _o_sqrt(e, args, kw, m):
    return e.dom.pow_(e.lift(args[0]), Fraction(1, 2))


@op("rsqrt")
def _o_rsqrt(e, args, kw, m):
    return e.dom.pow_(e.lift(args[0]), Fraction(-1, 2))


@op("reciprocal")
def _o_recip(e, args, kw, m):
    return e.dom.pow_(e.lift(args[0]), Fraction(-1))


@op("pow")
def _o_pow(e, args, kw, m):
    x = args[1]
    if not isinstance(x, (int, float)):
        raise Unsupported("tensor exponent")
    v = e.lift(args[0])
    if x == 1:
        return v
    if x == 2 and e.dom.selection(v) is None and e.dom.scalar_mono(v) is None:
        return sdom.mul(v, v)
    return e.dom.pow_(v, Fraction(x))


@op("square")
def _o_sq(e, args, kw, m):
    v = e.lift(args[0])
    return sdom.mul(v, v)


@op("clamp", "clamp_min", "clip")
def _o_clamp(e, args, kw, m):
    lo = args[1] if len(args) > 1 else kw.get("min")
    hi = args[2] if len(args) > 2 else kw.get("max")
    v = e.lift(args[0])
    return e.clamp(v, lo, hi, m)


def _clamp(self, v, lo, hi, m):
    if hi is None and isinstance(lo, (int, float)):
        c = self.dom._const_full(v)
        if c is not None and c[1] == 0:
            return sdom.full(self.world, v.shape, (max(c[0], Fraction(lo)), Fraction(0)))
        s = self.dom.selection(v)
        if s is not None and s[1] == ONE and not s[2] and s[0].lower is not None and Fraction(lo) <= s[0].lower:
            return v
        if s is not None and s[1] == ONE and not s[2] and s[0].nonneg and lo <= 0:
            return v
    los = self.lift(lo) if isinstance(lo, (torch.Tensor, SymScalar)) else None
    args = [v] + ([los] if los is not None else [])
    return self.dom.sym_fn("clamp", (None if los is not None else lo, hi), args, m.shape, m.dtype, nonneg=True)


Engine.clamp = _clamp


@op("maximum", "minimum", "fmax", "fmin")
def _o_maximum(e, args, kw, m):
    return e.dom.sym_fn("elementwise_minmax", (), [sdom.expand(e.lift(a), tuple(m.shape)) for a in args[:2]], m.shape, m.dtype)


@op("where")
def _o_where(e, args, kw, m):
    return e.dom.sym_fn("where", (), [sdom.expand(e.lift(a), tuple(m.shape)) for a in args[:3]], m.shape, m.dtype)


@op("exp", "log", "sign", "sgn", "isnan", "isfinite", "isinf", "tanh", "nan_to_num", "logical_not", "angle", "round", "floor")
def _o_unary(e, args, kw, m):
    raise Unsupported("elementwise function")


@op("lt", "le", "gt", "ge", "eq", "ne")
def _o_cmp(e, args, kw, m):
    raise Unsupported("compare")   # replaced below


def _mk_cmp(nm):
    def f(e, args, kw, m):
        return e.dom.compare(nm, e.lift(args[0]), e.lift(args[1]))
    return f


for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    HANDLERS[_n] = _mk_cmp(_n)


@op("sum")
def _o_sum(e, args, kw, m):
    x = args[0]
    v = e.lift(x)
    if x.dtype == torch.bool:
        if len(args) > 1 and args[1] and v.shape and len(args[1]) != len(v.shape):
            raise Unsupported("partial count")
        return e.dom.count(v)
    dims = args[1] if len(args) > 1 and args[1] is not None else list(range(len(v.shape)))
    if isinstance(dims, int):
        dims = [dims]
    if dims == []:
        dims = list(range(len(v.shape)))
    return sdom.sum_(v, dims, args[2] if len(args) > 2 else kw.get("keepdim", False))


@op("count_nonzero")
def _o_cnz(e, args, kw, m):
    if args[0].dtype != torch.bool:
        raise Unsupported("count_nonzero")
    return e.dom.count(e.lift(args[0]))


@op("mean")
def _o_mean(e, args, kw, m):
    v = e.lift(args[0])
    n = 1
    for d in v.shape:
        n *= d
    return sdom.scale(sdom.sum_(v, list(range(len(v.shape))), False), (Fraction(1, n), Fraction(0)))


@op("linalg_vector_norm")
def _o_norm(e, args, kw, m):
    ordv = args[1] if len(args) > 1 else kw.get("ord", 2)
    dims = args[2] if len(args) > 2 else kw.get("dim")
    v = e.lift(args[0])
    if dims is not None and len(dims) != len(v.shape):
        raise Unsupported("partial norm")
    return e.norm(v, ordv)


def _norm(self, v, ordv):
    # pull a common positive scale out, so norm(c*T) == c*norm(T)
    num, mono, core = pull_scale(self.dom, v)
    return sdom.scale(self.of_entries(f"norm{float(ordv)}", core), num, mono)


def _of_entries(self, op, core, positive=True):
    """A function of the absolute values of all entries in any order: reshaping, permuting or conjugating does not change it."""
    flat = sdom.reshape(core, (_numel(core.shape),))
    core = sdom.reshape(core, tuple(d for d in core.shape if d > 1))
    names = sdom.names_in(flat)
    base = {n.rstrip("*") for n in names}
    l = self.world.memo.setdefault((op, "entries", flat.shape), [])
    for f2, _, n2, _, res in l:
        if n2 == names and sdom.same(f2, flat):
            return res
    sh = core.shape
    perms = [p for p in itertools.permutations(range(len(sh)))][:130]
    for _, c2, n2, b2, res in l:
        if b2 != base or sorted(c2.shape) != sorted(sh) or len(c2.terms) != len(core.terms):
            continue
        for c in (core, sdom.conj(core)):
            if sdom.names_in(c) != n2:
                continue
            for p in perms:
                if tuple(sh[i] for i in p) == c2.shape and sdom.same(c2, sdom.permute(c, p)):
                    return res
    res = self.dom._new_scalar(op, [flat], positive)
    l.append((flat, core, names, base, res))
    return res


Engine.norm = _norm
Engine.of_entries = _of_entries


def _numel(s):
    n = 1
    for d in s:
        n *= d
    return n


def pull_scale(dom, v):
    """v == num*mono*core with num>0 and mono the positive scalar factors common to all terms."""
    if not v.terms or any(t.num[1] for t in v.terms):
        return ONE, (), v
    a = max(abs(t.num[0]) for t in v.terms)
    common = set(v.terms[0].mono)
    for t in v.terms[1:]:
        common &= set(t.mono)
    mono = tuple(x for x in v.terms[0].mono if x in common and dom.w.scalars[x[0]]["positive"])
    if a == 1 and not mono:
        return ONE, (), v
    core = SVal(v.world, v.shape, [t.with_(num=(t.num[0] / a, Fraction(0)), mono=tuple(x for x in t.mono if x not in mono)) for t in v.terms], v.deg)
    return (a, Fraction(0)), mono, core


@op("max", "amax")
def _o_max(e, args, kw, m):
    if len(args) > 1 and not (isinstance(args[1], (list, tuple)) and len(args[1]) in (0, args[0].dim())):
        raise Unsupported("max with dim / binary max")
    return e.maxall("max", e.lift(args[0]))


@op("min", "amin")
def _o_min(e, args, kw, m):
    if len(args) > 1:
        raise Unsupported("min with dim")
    return e.maxall("min", e.lift(args[0]))


def _maxall(self, nm, v):
    num, mono, core = pull_scale(self.dom, v)
    n = sdom.reshape(core, (_numel(core.shape),))
    sl = self.dom.selection(core)
    if sl is not None and sl[0].info in ("desc", "asc") and sl[0].nonneg and \
            core.key() == sdom.from_symbol(sl[0]).key():
        last = (sl[0].info == "desc") == (nm == "min")
        return sdom.scale(self.dom.entry_scalar(sdom.select(core, 0, core.shape[0] - 1 if last else 0)), num, mono)
    pos = all(self.world.syms[s].nonneg for s in v.deg)
    return sdom.scale(self.dom.opaque_scalar(nm, (), [n], positive=pos), num, mono)


Engine.maxall = _maxall


@op("mm", "bmm", "matmul", "mv", "dot", "vdot")
def _o_mm(e, args, kw, m):
    a, b = e.lift(args[0]), e.lift(args[1])
    na, nb = len(a.shape), len(b.shape)
    if na == 3 and nb == 3:
        return e.dom_contract([a, b], [("b", "i", "k"), ("b", "k", "j")], ("b", "i", "j"))
    if na == 2 and nb == 2:
        return e.dom_contract([a, b], [("i", "k"), ("k", "j")], ("i", "j"))
    if na == 2 and nb == 1:
        return e.dom_contract([a, b], [("i", "k"), ("k",)], ("i",))
    if na == 1 and nb == 2:
        return e.dom_contract([a, b], [("k",), ("k", "j")], ("j",))
    if na == 1 and nb == 1:
        return e.dom_contract([a, b], [("k",), ("k",)], ())
    raise Unsupported("matmul rank")


HANDLERS["vdot"] = lambda e, args, kw, m: e.dom_contract([e.conj_fn()(e.lift(args[0])), e.lift(args[1])], [("k",), ("k",)], ())


@op("addmm")
def _o_addmm(e, args, kw, m):
    r = e.dom_contract([e.lift(args[1]), e.lift(args[2])], [("i", "k"), ("k", "j")], ("i", "j"))
    r = sdom.mul(r, e.lift(kw.get("alpha", 1)))
    return sdom.add(sdom.mul(e.lift(args[0]), e.lift(kw.get("beta", 1))), r)


@op("trace")
def _o_trace(e, args, kw, m):
    return e.dom_contract([e.lift(args[0])], [("i", "i")], ())


@op("flip")
def _o_flip(e, args, kw, m):
    return sdom.flip(e.lift(args[0]), args[1])


@op("triu")
def _o_triu(e, args, kw, m):
    return sdom.tri(e.lift(args[0]), True, args[1] if len(args) > 1 else 0)


@op("tril")
def _o_tril(e, args, kw, m):
    return sdom.tri(e.lift(args[0]), False, args[1] if len(args) > 1 else 0)


@op("diag_embed")
def _o_dembed(e, args, kw, m):
    if len(args) > 1:
        raise Unsupported("diag_embed args")
    return sdom.diag_embed(e.lift(args[0]))


@op("cat", "concatenate")
def _o_cat(e, args, kw, m):
    dim = (args[1] if len(args) > 1 else kw.get("dim", 0)) % m.dim()
    pos, r = 0, None
    for x in args[0]:
        v = e.lift(x)
        if v.shape == (0,):
            continue
        p = sdom.unslice(v, dim, m.shape[dim], pos)
        pos += v.shape[dim]
        r = p if r is None else sdom.add(r, p)
    return r


@op("stack")
def _o_stack(e, args, kw, m):
    dim = (args[1] if len(args) > 1 else kw.get("dim", 0)) % m.dim()
    r = None
    for i, x in enumerate(args[0]):
        p = sdom.unselect(e.lift(x), dim, m.shape[dim], i)
        r = p if r is None else sdom.add(r, p)
    return r


@op("index_select")
def _o_isel(e, args, kw, m):
    idx = args[2]
    if isinstance(idx, SymTensor):
        raise Unsupported("symbolic index")
    return sdom.index_map(e.lift(args[0]), args[1] % args[0].dim(), idx.tolist())


@op("index")
def _o_index(e, args, kw, m):
    idx = list(args[1])
    nz = [i for i, x in enumerate(idx) if x is not None]
    if len(nz) != 1 or isinstance(idx[nz[0]], SymTensor) or idx[nz[0]].dim() != 1:
        raise Unsupported("advanced indexing")
    x = idx[nz[0]]
    l = x.nonzero().reshape(-1).tolist() if x.dtype == torch.bool else x.tolist()
    n = args[0].shape[nz[0]]
    return sdom.index_map(e.lift(args[0]), nz[0], [i % n for i in l])


@op("linalg_qr")
def _o_qr(e, args, kw, m):
    a = args[0]
    mode = args[1] if len(args) > 1 else kw.get("mode", "reduced")
    return e.linalg("qr", (mode,), [e.lift(a)], [(".Q", m[0].shape, a.dtype), (".R", m[1].shape, a.dtype)],
                    [{}, {"info": "upper"}])


@op("_linalg_svd", "linalg_svd")
def _o_svd(e, args, kw, m):
    a = args[0]
    fm = args[1] if len(args) > 1 else kw.get("full_matrices", True)
    return e.linalg("svd", (fm,), [e.lift(a)], [(".U", m[0].shape, a.dtype), (".S", m[1].shape, m[1].dtype),
                                                (".Vh", m[2].shape, a.dtype)], [{}, {"nonneg": True, "info": "desc"}, {}])


@op("linalg_svdvals")
def _o_svdvals(e, args, kw, m):
    raise Unsupported("svdvals")


@op("_linalg_eigh", "linalg_eigh")
def _o_eigh(e, args, kw, m):
    a = args[0]
    v = e.lift(a)
    n = len(e.world.records)
    outs = e.linalg("eigh", (), [v], [(".w", m[0].shape, m[0].dtype), (".z", m[1].shape, a.dtype)],
                    [{"info": "asc"}, {}])
    for r in e.world.records[:n]:
        if r["op"] == "eigh" and not r["failed"] and r["args"][0].shape == v.shape and outs[0] is not r["outs"][0]:
            c = _multiple_of_one(e, sdom.add(v, sdom.scale(r["args"][0], (Fraction(-1), Fraction(0)))))
            if c is None:
                continue
            # eigh(M + c 1): the same eigenvectors, eigenvalues shifted by c
            facts = e.dom.exact_cmp("eq", outs[0], sdom.add(r["outs"][0], sdom.expand(c, tuple(m[0].shape))))
            if facts is None:
                continue
            for f in facts:
                paths.cur().assume_unchecked(f)
            outs[1] = r["outs"][1]
            break
    return outs


def _multiple_of_one(e, d):
    """c when d == c * identity (c a scalar), else None"""
    if not d.terms or any(len(e.world.syms[n].shape) > 1 for t in d.terms for n, _ in t.used):
        return None
    c = sdom.select(sdom.select(d, 0, 0), 0, 0)
    one = sdom.eye(e.world, d.shape[0], d.shape[0])
    return c if sdom.same(d, sdom.mul(one, sdom.expand(c, d.shape))) else None


@op("linalg_cholesky_ex", "linalg_cholesky")
def _o_chol(e, args, kw, m):
    a = args[0]
    mm = m[0] if isinstance(m, (tuple, list)) else m
    L, = e.linalg("cholesky", (), [e.lift(a)], [(".L", mm.shape, a.dtype)], [{"info": "lower"}])
    if isinstance(m, (tuple, list)):
        return [L, sdom.zeros(e.world, tuple(m[1].shape))]
    return L


@op("linalg_matrix_exp", "matrix_exp")
def _o_mexp(e, args, kw, m):
    return e.linalg("matrix_exp", (), [e.lift(args[0])], [("", m.shape, m.dtype)])[0]


@op("linalg_pinv")
def _o_pinv(e, args, kw, m):
    pars = {}
    names = []
    for x in args[1:]:
        names.append(_cval(e, x))
    for k, x in kw.items():
        pars[k] = _cval(e, x)
    return e.linalg("pinv", (names, sorted(pars.items(), key=str)), [e.lift(args[0])], [("", m.shape, m.dtype)])[0]


def _cval(e, x):
    if isinstance(x, SymTensor):
        c = e.dom.const_scalar(x.v)
        if c is None:
            # 0-d constants made by full(): same thing
            return str(x.v.key())
        return float(c[0])
    if isinstance(x, torch.Tensor):
        return x.item()
    return x


def inverse(e, v, dtype):
    """opaque inverse, commuting with transpose and conjugation"""
    n = v.shape[0]
    tr = lambda x: sdom.permute(x, [1, 0])
    cj = e.conj_fn()
    l = e.world.memo.setdefault(("inv", "", (v.shape,)), [])
    for f in (lambda x: x, tr, cj, lambda x: cj(tr(x))):
        fv = f(v)
        for a2, res in l:
            if sdom.same(a2[0], fv):
                return f(res)
    r = e.dom.fresh("inv", v.shape, dtype)[0]
    l.append(([v], r))
    return r


@op("linalg_inv_ex", "linalg_inv", "inverse")
def _o_inv(e, args, kw, m):
    mm = m[0] if isinstance(m, (tuple, list)) else m
    v = e.lift(args[0])
    r = inverse(e, v, mm.dtype)
    e.world.records.append({"op": "inv", "params": (), "args": [v], "outs": [r], "failed": False, "dts": [m[0].dtype if isinstance(m, (tuple, list)) else m.dtype]})
    if isinstance(m, (tuple, list)):
        return [r, sdom.zeros(e.world, tuple(m[1].shape))]
    return r


def _apply_left(e, M, B):
    if len(B.shape) == 1:
        return e.dom_contract([M, B], [("i", "k"), ("k",)], ("i",))
    return e.dom_contract([M, B], [("i", "k"), ("k", "j")], ("i", "j"))


@op("_linalg_solve_ex", "linalg_solve", "linalg_solve_ex")
def _o_solve(e, args, kw, m):
    A, B = e.lift(args[0]), e.lift(args[1])
    if kw.get("left", True) is False:
        raise Unsupported("solve left=False")
    mm = m[0] if isinstance(m, (tuple, list)) else m
    r = inverse(e, A, mm.dtype)
    e.world.records.append({"op": "solve", "params": (), "args": [A, B], "outs": [r], "failed": False, "dts": [m[0].dtype if isinstance(m, (tuple, list)) else m.dtype]})
    x = _apply_left(e, r, B)
    if isinstance(m, (tuple, list)):
        outs = [x]
        for k in m[1:]:
            outs.append(e.dom.fresh("lu", k.shape, k.dtype)[0] if k.dtype.is_floating_point or k.dtype.is_complex else
                        sdom.zeros(e.world, tuple(k.shape)))
        return outs
    return x


def _triangle_of(e, v):
    """'lower'/'upper' when v is a known triangular factor (or its transpose / conjugate)."""
    if not v.terms:
        return None
    names = {n for t in v.terms for n, _ in t.used}
    if len(names) != 1:
        return None
    s = e.world.syms[names.pop()]
    b = s if s.info in ("lower", "upper") else s.bar
    if b.info not in ("lower", "upper") or len(s.shape) != 2:
        return None
    bv = sdom.from_symbol(s)
    if sdom.same(v, bv):
        return b.info
    if sdom.same(v, sdom.permute(bv, [1, 0])):
        return "upper" if b.info == "lower" else "lower"
    return None


@op("linalg_solve_triangular")
def _o_tri(e, args, kw, m):
    A, B = e.lift(args[0]), e.lift(args[1])
    if not kw.get("left", True) or kw.get("unitriangular", False):
        raise Unsupported("solve_triangular options")
    k = "upper" if kw["upper"] else "lower"
    if _triangle_of(e, A) != k:
        A = sdom.tri(A, k == "upper", 0)
    return _apply_left(e, inverse(e, A, m.dtype), B)


@op("triangular_solve")
def _o_tri2(e, args, kw, m):
    raise Unsupported("triangular_solve")


@op("cholesky_solve")
def _o_cholsolve(e, args, kw, m):
    B, L = e.lift(args[0]), e.lift(args[1])
    upper = args[2] if len(args) > 2 else kw.get("upper", False)
    H = lambda x: e.conj_fn()(sdom.permute(x, [1, 0]))
    if upper:
        L = H(L)
    i = inverse(e, L, m.dtype)
    return _apply_left(e, H(i), _apply_left(e, i, B))


@op("cholesky_inverse")
def _o_cholinv(e, args, kw, m):
    L = e.lift(args[0])
    i = inverse(e, L, m.dtype)
    H = e.conj_fn()(sdom.permute(i, [1, 0]))
    return _apply_left(e, H, i)


@op("view_as_complex")
def _o_var(e, args, kw, m):
    raise Unsupported("view_as_complex")


@view("view_as_real")
def _v_var(e, base, args, kw, m):
    n = base.dim()
    one = lambda v: sdom.reshape(v, tuple(base.shape) + (1,))

    def fn(b):
        return sdom.add(sdom.unslice(one(e.dom.real_(b)), n, 2, 0), sdom.unslice(one(e.dom.imag_(b)), n, 2, 1))
    return fn, None


@op("_local_scalar_dense", "is_nonzero")
def _o_lsd(e, args, kw, m):
    raise Unsupported("scalar extraction at the dispatcher")


class InferenceOff:
    """torch.inference_mode is a performance switch; it is a no-op for symbolic tensors."""

    def __enter__(self):
        c = torch.autograd.grad_mode.inference_mode
        self.old = (c.__enter__, c.__exit__)
        c.__enter__ = lambda s: None
        c.__exit__ = lambda s, *a: None
        return self

    def __exit__(self, *a):
        c = torch.autograd.grad_mode.inference_mode
        c.__enter__, c.__exit__ = self.old


class ScalarMode(TorchFunctionMode):
    """Lowers symbolic python scalars in calls whose tensors are all concrete."""

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        if any(has_symbolic_scalar(a) for a in args) or any(has_symbolic_scalar(a) for a in kwargs.values()):
            args = tuple(lower_scalars(a) for a in args)
            kwargs = {k: lower_scalars(v) for k, v in kwargs.items()}
        return func(*args, **kwargs)


class Running:
    """Context manager: the engine is live."""

    def __init__(self, engine):
        self.e = engine

    def __enter__(self):
        global ENGINE
        self.old = ENGINE
        ENGINE = self.e
        self.inf = InferenceOff()
        self.inf.__enter__()
        self.sm = ScalarMode()
        self.sm.__enter__()
        self.e.__enter__()
        self.floats = [m for k, m in list(sys.modules.items()) if k.split(".")[0] == "acetn" and "float" not in vars(m) and _only_calls_float(m)]
        for m in self.floats:
            m.float = SymFloat
        return self.e

    def __exit__(self, *a):
        global ENGINE
        for m in self.floats:
            del m.float
        self.e.__exit__(*a)
        self.sm.__exit__(*a)
        self.inf.__exit__(*a)
        ENGINE = self.old
