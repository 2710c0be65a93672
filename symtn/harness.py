"""Harness runner: symbolic execution, solver verdicts, replay on the unmodified code, evidence."""
import contextlib
import importlib
import io
import itertools
import json
import os
import subprocess
import sys
import time
import traceback
import random
from fractions import Fraction

from . import z3env
from .z3env import z3, STATS, Inconclusive, solve
from . import paths, sdom
from .sdom import Unsupported, NeedColours
import torch

from . import stensor
from .stensor import SymTensor, SymScalar, Engine, Running

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ACETN_REPO", "/repo")
TOL = 1e-6


class Violated(Exception):
    def __init__(self, label, detail=None, model=None):
        super().__init__(label)
        self.label, self.detail, self.model = label, detail, model


class Skip(Exception):
    """Concrete world: this run does not reach the checked situation."""


class Vacuous(Exception):
    pass


def t_shape(x):
    return tuple(x.shape) if isinstance(x, torch.Tensor) else ()


# ------------------------------------------------------------------------------------------------
VERDICTS = {}


class SymWorld:
    verdicts = VERDICTS
    symbolic = True

    def __init__(self, explorer, ncol):
        self.ex = explorer
        self.s = sdom.World(ncol)
        self.engine = Engine(self.s)
        self.dtype = torch.complex128
        self.choices = {}
        self.asserts = 0
        self.labels = []
        self.names = []
        self.ints = {}
        self.last_model = None

    # inputs
    def tensor(self, name, *shape, dtype=None, **kw):
        dtype = dtype or self.dtype
        s = self.s.symbol(name, shape, real=not dtype.is_complex, **kw)
        self.names.append(s.name)
        with torch.utils._python_dispatch._disable_current_modes():
            m = torch.empty(shape, dtype=dtype, device="meta")
        return SymTensor(sdom.from_symbol(s), m)

    def positive(self, name, n, lower=None, dtype=torch.float64, **kw):
        """vector of positive numbers (>= lower when given)"""
        return self.tensor(name, n, dtype=dtype, nonneg=True, lower=lower)

    def scalar(self, name, **kw):
        return SymScalar(self.engine.dom.param(name))

    def real(self, name, lo, hi):
        """a real number in [lo, hi] as a 0-d tensor; the solver chooses it"""
        t = self.tensor("re_" + name, 1, dtype=torch.float64, nonneg=lo >= 0, lower=lo if lo > 0 else None)
        x = self.engine.dom.real_vars(self.s.syms["re_" + name])[0]
        self.ex.assume(z3.And(x >= z3.RealVal(lo), x <= z3.RealVal(hi)))
        return t[0]

    def integer(self, name, lo, hi):
        v = z3.Int("in_" + name)
        self.ints[name] = v
        self.ex.assume(z3.And(v >= lo, v <= hi))
        return paths.SymInt(v)

    def boolean(self, name):
        v = z3.Bool("inb_" + name)
        self.ints[name] = v
        return bool(paths.SymBool(v))

    def choose(self, name, options):
        v = z3.Int("in_" + name)
        if name in self.ints:
            raise Unsupported(f"input {name} chosen twice")
        self.ints[name] = v
        if name in self.forced:
            if self.forced[name] >= len(options):
                raise Elsewhere
            i = self.ex.pick(v, [self.forced[name]])
        else:
            i = self.ex.pick(v, range(len(options)))
        self.choices[name] = i
        return options[i]

    def flip(self, name):
        """a solver-enumerated boolean decision"""
        return self.choose(name, [False, True])

    # assertions
    def value(self, x):
        if isinstance(x, (int, float, complex, SymScalar, torch.Tensor)):
            return self.engine.lift(x)
        raise Unsupported(f"cannot compare {type(x)}")

    def equal(self, got, want, label, allow_zero=False, dtype=True):
        self.asserts += 1
        self.labels.append(label)
        if t_shape(got) != t_shape(want):
            raise Violated(label, f"shape {t_shape(got)} instead of {t_shape(want)}")
        if dtype and isinstance(got, torch.Tensor) and isinstance(want, torch.Tensor) and got.dtype != want.dtype:
            raise Violated(label, f"dtype {got.dtype} instead of {want.dtype}")
        a, b = self.value(got), self.value(want)
        sdom.check_degrees(a, b)
        key = self._verdict_key(a, b)
        known = self.verdicts.get(key)
        if known is not None and (known[0] or allow_zero):
            return                       # the same two values, already decided for all positions on another path
        nz = sdom.nonzero(b)
        if not allow_zero and not nz:
            raise Vacuous(f"{label}: the specified value is identically zero")
        m = sdom.differs(a, b)
        if m is not None:
            raise Violated(label, "values differ", self.positions(m))
        if not sdom.PC_USED:
            self.verdicts[key] = (nz, a, b)      # keeps the formulas, and with them their identities, alive

    def _verdict_key(self, a, b):
        W = self.s
        names = sdom.names_in(a) | sdom.names_in(b)
        return (a.key(), b.key(), tuple(sorted((n, W.syms[n].shape, W.syms[n].colours()) for n in names)))

    def proportional(self, got, want, label):
        """got == c*want for one positive scalar c (the code's normalisation)"""
        self.asserts += 1
        self.labels.append(label)
        if t_shape(got) != t_shape(want):
            raise Violated(label, f"shape {t_shape(got)} instead of {t_shape(want)}")
        if isinstance(got, torch.Tensor) and isinstance(want, torch.Tensor) and got.dtype != want.dtype:
            raise Violated(label, f"dtype {got.dtype} instead of {want.dtype}")
        a, b = self.value(got), self.value(want)
        sdom.check_degrees(a, b)
        if not sdom.nonzero(b):
            raise Vacuous(f"{label}: the specified value is identically zero")
        last = None
        cands = []
        for num, mono in sdom.ratio_candidates(a, b):
            if num[1] == 0 and num[0] > 0 and all(self.s.scalars[k]["positive"] for k, _ in mono):
                cands.append((num, mono))
        for num, mono in cands:
            m = sdom.differs(a, sdom.scale(b, num, mono))
            if m is None:
                return
            last = m
        if last is None:
            last = sdom.differs(a, b)
        raise Violated(label, "not proportional", self.positions(last) if last is not None else None)

    def holds_equal(self, got, want):
        """do the two values agree (no assertion is made)"""
        if t_shape(got) != t_shape(want):
            return False
        return sdom.same(self.value(got), self.value(want))

    def one_of(self, got, wants, label):
        """got is a positive multiple of one of the candidates"""
        err = None
        n = self.asserts
        for x in wants:
            if t_shape(x) != t_shape(got):
                continue
            try:
                self.proportional(got, x, label)
                self.asserts = n + 1
                return
            except Violated as e:
                err = e
        self.asserts = n + 1
        raise err or Violated(label, "no candidate has the right shape")

    def unit_norm(self, got, label):
        """the Frobenius norm of got is one: got == T/||T||"""
        self.asserts += 1
        self.labels.append(label)
        v = self.value(got)
        n = self.engine.norm(v, 2)
        c = self.engine.dom.const_scalar(n)
        if c == (Fraction(1), Fraction(0)):
            return
        # ||m^-1 T|| = m^-1 ||T|| : the two monomials must cancel
        if len(n.terms) == 1 and n.terms[0].mono == () and n.terms[0].num == sdom.ONE:
            return
        raise Violated(label, "norm is not one")

    def require(self, cond, label):
        """cond: python bool or symbolic bool that must hold on this path for all remaining symbolic values"""
        self.asserts += 1
        self.labels.append(label)
        if isinstance(cond, SymTensor) and cond.v.zbool is not None:
            cond = paths.SymBool(cond.v.zbool)
        if isinstance(cond, paths.SymBool):
            z = cond.z
            if not isinstance(z, bool):
                v, m = solve(self.ex.pc + [z3.Not(z)])
                if v == "sat":
                    raise Violated(label, "condition fails", self.positions(m))
                return
            cond = z
        if not cond:
            raise Violated(label, "condition fails")

    def close(self, got, want, label):
        """real numbers (fixed entries of computed vectors) that agree for all spectra on this path"""
        self.asserts += 1
        self.labels.append(label)
        z = self.engine.dom.exact_cmp("eq", self.value(got), self.value(want))
        if z is None:
            raise Unsupported("comparison of entries")
        v, m = solve(self.ex.pc + [z3.Not(z3.And(z))])
        if v == "sat":
            raise Violated(label, "values differ", self.positions(m))

    def assume(self, cond):
        """restrict the explored inputs"""
        self.ex.assume(cond)

    def positions(self, m):
        if m is None:
            return None
        d = {}
        for d_ in m.decls():
            v = m[d_]
            if z3.is_int_value(v):
                d[d_.name()] = v.as_long()
            elif z3.is_rational_value(v):
                d[d_.name()] = float(v.as_fraction())
            elif z3.is_true(v) or z3.is_false(v):
                d[d_.name()] = z3.is_true(v)
        return d

    def path_model(self):
        v, m = solve(self.ex.pc, "branch")
        return self.positions(m) if v == "sat" else {}

    @property
    def records(self):
        out = []
        for r in self.s.records:
            def wrap(v, dt):
                with torch.utils._python_dispatch._disable_current_modes():
                    m = torch.empty(v.shape, dtype=dt, device="meta")
                return SymTensor(v, m)
            dt0 = next((d for d in r["dts"] if d.is_complex), r["dts"][0])
            out.append({"op": r["op"], "params": r["params"], "failed": r["failed"],
                        "args": [wrap(v, dt0) for v in r["args"]],
                        "outs": None if r["outs"] is None else [wrap(v, dt) for v, dt in zip(r["outs"], r["dts"])]})
        return out

    def records_before_svd_q(self):
        return [r for r in self.records if r["op"] == "qr"][-1]["outs"][0]

    def random_state(self, tag):
        """the random generator is in state `tag`: draws from one state are the same every time, those of different states unrelated"""
        self.s.random_state = [tag, 0]

    @property
    def randoms(self):
        return [SymTensor(v, m) for v, m in self.s.randoms]

    def reduce(self, x):
        """x rewritten by the contracts of the decompositions computed so far (Q R = M, U S V^H = M, z w z^H = M,
        Q^H Q = 1, A^-1 A = 1); every rewriting is checked to be an identity"""
        v, meta = x.v, x
        W = self.s
        sy = lambda a: next(iter(a.terms[0].used))[0]
        for _ in range(6):
            changed = False
            for rule in self._rules():
                r = rule(v)
                if r is not None:
                    v, changed = r, True
            m = sdom.merge_powers(v)
            if m is not None:
                v, changed = m, True
            if not changed:
                break
        with torch.utils._python_dispatch._disable_current_modes():
            m = torch.empty(v.shape, dtype=x.dtype, device="meta")
        return SymTensor(v, m)

    def _rules(self):
        W = self.s
        cj = sdom.conj
        mm = lambda a, b: sdom.contract([a, b], [(0, 1), (1, 2)], (0, 2))
        H = lambda a: cj(sdom.permute(a, [1, 0]))
        name = lambda a: next(iter(a.terms[0].used))[0]
        ident = lambda a: a
        rules = []

        def rule(probe_syms, gshape, probes, pattern, rhs):
            def f(v):
                if any(sdom.degree_in(v, n) != 1 for n in probe_syms):
                    return None
                g = W.symbol("G", gshape)
                G = sdom.from_symbol(g)
                return sdom.rewrite(v, {n: p(G) for n, p in zip(probe_syms, probes)}, g, pattern, rhs)
            rules.append(f)
        E = lambda n: sdom.eye(W, n, n)
        ones = lambda n: sdom.full(W, (n,), sdom.ONE)
        for r in reversed(W.records):
            if r["failed"] or not r["outs"]:
                continue
            M = r["args"][0]
            for c in (ident, cj):
                o = [c(x) for x in r["outs"]]
                if any(not x.terms or len(next(iter(x.terms)).used) != 1 for x in o):
                    continue
                Mc = c(M)
                if r["op"] == "qr":
                    Q, R = o
                    m, n = M.shape
                    k = Q.shape[1]
                    if k == n:
                        rule([name(Q), name(R)], (m, n), [ident, lambda G, n=n: E(n)], mm(Q, R), Mc)
                    elif k == m:
                        rule([name(Q), name(R)], (m, n), [lambda G, m=m: E(m), ident], mm(Q, R), Mc)
                    if name(H(Q)) != name(Q) and k < m:
                        # probe the isometry with G padded by zero rows
                        pad = lambda G, m=m, k=k: sdom.unslice(G, 0, m, 0)
                        top = lambda G, m=m, k=k: sdom.eye(W, m, k)
                        rule([name(H(Q)), name(Q)], (k, k), [lambda G, pad=pad: sdom.unslice(sdom.permute(G, [1, 0]), 0, m, 0), top],
                             mm(H(Q), Q), E(k))
                elif r["op"] == "svd":
                    U, S, Vh = o
                    m, n = M.shape
                    k = S.shape[0]
                    if U.shape[1] != k or Vh.shape[0] != k:
                        continue
                    pat = sdom.contract([U, S, Vh], [(0, 1), (1,), (1, 2)], (0, 2))
                    if k == n:
                        rule([name(U), name(S), name(Vh)], (m, n), [ident, lambda G, k=k: ones(k), lambda G, k=k: E(k)], pat, Mc)
                    elif k == m:
                        rule([name(U), name(S), name(Vh)], (m, n), [lambda G, k=k: E(k), lambda G, k=k: ones(k), ident], pat, Mc)
                    if k == m and name(H(U)) != name(U):
                        rule([name(H(U)), name(U)], (m, m), [lambda G: sdom.permute(G, [1, 0]), lambda G, m=m: E(m)], mm(H(U), U), E(m))
                    if k == n and name(H(Vh)) != name(Vh):
                        rule([name(Vh), name(H(Vh))], (n, n), [ident, lambda G, n=n: E(n)], mm(Vh, H(Vh)), E(n))
                elif r["op"] == "eigh":
                    wv, z = o
                    zh = H(z)
                    if name(zh) == name(z):
                        continue
                    n = M.shape[0]
                    pat = sdom.contract([z, wv, zh], [(0, 1), (1,), (1, 2)], (0, 2))
                    rule([name(z), name(wv), name(zh)], (n, n), [ident, lambda G, n=n: ones(n), lambda G, n=n: E(n)], pat, Mc)
                    rule([name(zh), name(z)], (n, n), [lambda G: sdom.permute(G, [1, 0]), lambda G, n=n: E(n)], mm(zh, z), E(n))
        for (op, _, _), l in list(W.memo.items()):
            if op not in ("inv", "pinv"):
                continue
            for args, res in l:
                A = args[0]
                R = res[0] if isinstance(res, (list, tuple)) else res
                if len(A.terms) < 1 or any(len(t.used) != 1 for t in A.terms) or len(sdom.names_in(A)) != 1:
                    continue
                if not sdom.same(A, sdom.from_symbol(W.syms[name(A)])) or A.shape[0] != A.shape[1]:
                    continue
                n = A.shape[0]
                for c in (ident, cj):
                    a, b = c(A), c(R)
                    if len(sdom.names_in(b)) != 1:
                        continue
                    rule([name(a), name(b)], (n, n), [ident, lambda G, n=n: E(n)], mm(a, b), E(n))
                    rule([name(b), name(a)], (n, n), [ident, lambda G, n=n: E(n)], mm(b, a), E(n))
        return rules

    def clear_records(self):
        self.s.records.clear()
        self.s.randoms.clear()

    def inject_failures(self, f):
        self.engine.fail_ops = f

    @contextlib.contextmanager
    def live(self):
        r = Running(self.engine)
        self._running = r
        with r:
            yield

    @contextlib.contextmanager
    def concrete(self):
        """Construct a fixture with ordinary torch: nothing in here is part of what is decided."""
        r = self._running
        r.__exit__(None, None, None)
        try:
            yield
        finally:
            r.__enter__()


# ------------------------------------------------------------------------------------------------
class Recorder(stensor.TorchDispatchMode):
    OPS = {"_linalg_svd": "svd", "linalg_svd": "svd", "linalg_qr": "qr", "linalg_cholesky_ex": "cholesky",
           "linalg_cholesky": "cholesky", "_linalg_eigh": "eigh", "linalg_eigh": "eigh",
           "linalg_matrix_exp": "matrix_exp", "matrix_exp": "matrix_exp", "linalg_pinv": "pinv",
           "_linalg_solve_ex": "solve", "linalg_solve": "solve", "linalg_solve_ex": "solve",
           "linalg_inv_ex": "inv", "linalg_inv": "inv"}

    def __init__(self):
        super().__init__()
        self.recs = []
        self.randoms = []
        self.fail = None

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        n = func._overloadpacket.__name__
        o = self.OPS.get(n)
        with stensor.native():
            return self.call(func, n, o, args, kwargs)

    def call(self, func, n, o, args, kwargs):
        if o is None:
            r = func(*args, **kwargs)
            if n in ("rand", "randn", "rand_like", "randn_like"):
                self.randoms.append(r.clone())
            return r
        a = [x.clone() for x in args[:2] if isinstance(x, torch.Tensor)]
        if self.fail is not None and self.fail(o):
            self.recs.append({"op": o, "params": (), "args": a, "outs": None, "failed": True})
            raise torch.linalg.LinAlgError(f"injected failure of {o}")
        r = func(*args, **kwargs)
        outs = list(r) if isinstance(r, (tuple, list)) else [r]
        if o in ("cholesky", "inv"):
            outs = outs[:1]
        self.recs.append({"op": o, "params": args[1:], "args": a, "outs": [x.clone() for x in outs], "failed": False})
        return r


class ConcWorld:
    """The same harness on plain torch tensors: validation and replay."""
    symbolic = False

    def __init__(self, choices, positions, seed, grade=0, grade_tensors=True):
        # grade: decades spanned by the entries along every axis (replays of threshold-dependent counterexamples); differences
        # must then exceed a tolerance far above what rounding can do to such ill-conditioned data
        self.grade = grade
        self.grade_tensors = grade_tensors
        self.tol = TOL if not grade else 1e-3
        self.choices = dict(choices or {})
        self.pos = dict(positions or {})
        self.seed = seed
        self.dtype = torch.complex128
        self.rec = Recorder()
        self.asserts = 0
        self.rng = random.Random(seed)
        self.gen = torch.Generator().manual_seed(seed + 12345)
        self.count = {}
        torch.manual_seed(seed)

    def random_state(self, tag):
        torch.manual_seed(self.seed + 1000 * (tag + 1))

    def _name(self, n):
        k = self.count.get(n, 0)
        self.count[n] = k + 1
        return n if k == 0 else f"{n}~{k}"

    def tensor(self, name, *shape, dtype=None, nonneg=False, lower=None, **kw):
        dtype = dtype or self.dtype
        name = self._name(name)
        rd = torch.float64
        t = torch.rand(shape, dtype=rd, generator=self.gen) - 0.3
        if dtype.is_complex:
            t = t + 1j * (torch.rand(shape, dtype=rd, generator=self.gen) - 0.4)
        t = t.to(dtype)
        for suffix in ("", "*"):
            for c in range(6):
                idx = []
                found = False
                for a in range(len(shape)):
                    k = f"{name}{suffix}#{c}[{a}]"
                    if k in self.pos:
                        found = True
                    idx.append(min(max(self.pos.get(k, 0), 0), shape[a] - 1) if shape[a] else 0)
                if found and all(s > 0 for s in shape):
                    t[tuple(idx)] = t[tuple(idx)] + 1.0
        if self.grade and self.grade_tensors:
            for a, n in enumerate(shape):
                if n > 1:
                    t = t * torch.logspace(0, -self.grade, n, dtype=rd).reshape([n if b == a else 1 for b in range(len(shape))])
            t = t.to(dtype)
        return t

    def positive(self, name, n, lower=None, dtype=torch.float64, **kw):
        self.npos = getattr(self, "npos", -1) + 1
        if self.grade and (self.grade_tensors or self.npos % 4 == self.seed % 4):
            t = torch.logspace(0, -self.grade, n, dtype=torch.float64) * (0.5 + self.rng.random())
            return t.clamp(min=lower or 0.).to(dtype)
        t = self.tensor(name, n, dtype=dtype).abs() + (lower or 0.05)
        t, _ = torch.sort(t, descending=True)
        return t.to(dtype)

    def scalar(self, name, **kw):
        return 0.3 + self.rng.random()

    def real(self, name, lo, hi):
        v = self.pos.get(f"re_{name}[0]")
        if v is None:
            v = lo + (hi - lo) * self.rng.random()
        return torch.tensor(min(max(v, lo), hi), dtype=torch.float64)

    def integer(self, name, lo, hi):
        v = self.pos.get("in_" + name, self.choices.get(name))
        if v is None:
            v = self.rng.randint(lo, hi)
        return min(max(int(v), lo), hi)

    def boolean(self, name):
        v = self.pos.get("inb_" + name)
        return bool(v) if v is not None else self.rng.random() < 0.5

    def choose(self, name, options):
        return options[self.integer(name, 0, len(options) - 1)]

    def flip(self, name):
        return self.choose(name, [False, True])

    def _cmp(self, got, want):
        g = torch.as_tensor(got).to(torch.complex128)
        w = torch.as_tensor(want).to(torch.complex128)
        if not torch.isfinite(torch.view_as_real(g.resolve_conj())).all():
            return float("inf")
        s = max(float(g.abs().max()) if g.numel() else 0.0, float(w.abs().max()) if w.numel() else 0.0, 1e-300)
        return float((g - w).abs().max()) / s if g.numel() else 0.0

    def equal(self, got, want, label, allow_zero=False, dtype=True):
        self.asserts += 1
        if t_shape(got) != t_shape(want):
            raise Violated(label, f"shape {t_shape(got)} instead of {t_shape(want)}")
        if dtype and isinstance(got, torch.Tensor) and isinstance(want, torch.Tensor) and got.dtype != want.dtype:
            raise Violated(label, f"dtype {got.dtype} instead of {want.dtype}")
        e = self._cmp(got, want)
        if e > self.tol and not (allow_zero and self._absolute(got, want) < 1e-9):     # zero up to rounding of values of order one
            raise Violated(label, f"relative difference {e:.3g}")

    @staticmethod
    def _absolute(got, want):
        d = torch.as_tensor(got).to(torch.complex128) - torch.as_tensor(want).to(torch.complex128)
        return float(d.abs().max()) if d.numel() else 0.0

    def proportional(self, got, want, label):
        self.asserts += 1
        if t_shape(got) != t_shape(want):
            raise Violated(label, f"shape {t_shape(got)} instead of {t_shape(want)}")
        if isinstance(got, torch.Tensor) and isinstance(want, torch.Tensor) and got.dtype != want.dtype:
            raise Violated(label, f"dtype {got.dtype} instead of {want.dtype}")
        g = torch.as_tensor(got).to(torch.complex128).reshape(-1)
        w = torch.as_tensor(want).to(torch.complex128).reshape(-1)
        ng, nw = g.norm(), w.norm()
        if ng == 0 or nw == 0:
            raise Violated(label, "zero tensor")
        e = self._cmp(g / ng, w / nw)
        if e > self.tol:
            raise Violated(label, f"directions differ by {e:.3g}")

    one_of = SymWorld.one_of

    def holds_equal(self, got, want):
        return t_shape(got) == t_shape(want) and self._cmp(got, want) <= self.tol

    def unit_norm(self, got, label):
        self.asserts += 1
        if abs(float(got.norm()) - 1) > self.tol:
            raise Violated(label, f"norm {float(got.norm())}")

    def require(self, cond, label):
        self.asserts += 1
        if not bool(cond):
            raise Violated(label, "condition fails")

    @property
    def records(self):
        return self.rec.recs

    def records_before_svd_q(self):
        return [r for r in self.records if r["op"] == "qr"][-1]["outs"][0]

    @property
    def randoms(self):
        return self.rec.randoms

    def reduce(self, x):
        return x

    def close(self, got, want, label):
        self.equal(got, want, label, dtype=False)

    def assume(self, cond):
        if not bool(cond):
            raise Skip()

    def clear_records(self):
        self.rec.recs.clear()
        self.rec.randoms.clear()

    def inject_failures(self, f):
        self.rec.fail = f

    @contextlib.contextmanager
    def live(self):
        with self.rec:
            yield

    @contextlib.contextmanager
    def concrete(self):
        n = len(self.rec.recs)
        f, self.rec.fail = self.rec.fail, None
        yield
        self.rec.fail = f
        del self.rec.recs[n:]


# ------------------------------------------------------------------------------------------------
class FnTrace:
    """Which functions of the repository were executed (encoded) symbolically."""

    def __init__(self):
        self.seen = set()

    def _cb(self, code, off):
        f = code.co_filename
        if f.startswith(REPO + "/acetn"):
            self.seen.add(f"{f[len(REPO) + 1:]}:{code.co_qualname}")
        return sys.monitoring.DISABLE

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(3, "symtn")
        m.register_callback(3, m.events.PY_START, self._cb)
        m.set_events(3, m.events.PY_START)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(3, 0)
        m.register_callback(3, m.events.PY_START, None)
        m.free_tool_id(3)


@contextlib.contextmanager
def quiet():
    """The repository prints progress through tqdm.write / print."""
    import tqdm
    import tqdm.std
    old = tqdm.tqdm.write
    ob = sys.stdout
    tqdm.tqdm.write = staticmethod(lambda *a, **k: None)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        tqdm.tqdm.write = old


class Harness:
    def __init__(self, name, fn, quick, thorough=None, bounds="", validate=True, max_paths=5000, seeds=1, grade_tensors=True, split=()):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough or quick
        self.bounds, self.validate, self.max_paths, self.seeds = bounds, validate, max_paths, seeds
        self.split = split                      # choices (name, number of values) that divide the paths among processes
        self.grade_tensors = grade_tensors      # replays with entries over decades: vary all tensors, or only `positive` vectors


class Elsewhere(BaseException):
    """This path belongs to another part of a divided instance."""


class Counterexample(Exception):
    def __init__(self, d):
        self.d = d


def run_symbolic(h, params, out, forced=()):
    VERDICTS.clear()
    """Explore all paths of one harness instance. Raises Counterexample."""
    ncol = {}
    for attempt in range(12):
        ex = paths.Explorer(h.max_paths)
        state = {}

        def once():
            w = SymWorld(ex, ncol)
            w.forced = dict(forced)
            state["w"] = w
            try:
                with quiet(), w.live():
                    h.fn(w, **params)
            except Elsewhere:
                return
            except Violated as e:
                d = w.path_model()
                d.update(e.model or {})
                raise Counterexample({"label": e.label, "detail": e.detail, "positions": d,
                                      "choices": w.choices, "kind": "assertion"})
            except (Unsupported, Inconclusive, paths.PathLimit, Vacuous, Counterexample):
                raise
            except Exception as e:
                if _engine_fault(e) or harness_fault(e):
                    raise
                d = w.path_model()
                raise Counterexample({"label": f"unexpected {type(e).__name__}: {e}", "detail": traceback.format_exc(),
                                      "positions": d, "choices": w.choices, "kind": "exception"})
            if w.asserts == 0:
                raise Vacuous("a path ended without reaching an assertion")
            out["asserts"] += w.asserts
            for k, v in w.engine.ops.items():
                out["ops"][k] = out["ops"].get(k, 0) + v
            out["symbols"] = max(out["symbols"], len(w.s.syms))
            for l in w.labels:
                out["labels"].add(l)
        try:
            ex.run(once)
            out["paths"] += ex.paths
            if ex.paths == 0:
                raise Vacuous("no feasible path")
            return
        except NeedColours as e:
            ncol[e.sym] = max(e.n, ncol.get(e.sym, 1))
            out["colour_reruns"] += 1
            if ncol[e.sym] > 6:
                raise Unsupported(f"degree {e.n} in {e.sym}")
    raise Unsupported("too many colour reruns")


def _engine_fault(e):
    """Did the exception originate in the engine itself (bug of ours)?"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    here = os.path.dirname(os.path.abspath(__file__))
    if last is None:
        return False
    if last.startswith(here) and "/props/" not in last:
        # torch shape errors raised while running the meta kernels are the code's own errors
        return not isinstance(e, (RuntimeError, IndexError, ValueError, TypeError, torch.linalg.LinAlgError)) or \
            not _from_meta(e)
    return False


def harness_fault(e):
    """The checking code itself could not find what it looks for (a renamed function, say)."""
    if isinstance(e, Violated):
        return False
    if not isinstance(e, (AttributeError, ImportError)):
        return False
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return bool(last) and last.startswith(os.path.dirname(os.path.abspath(__file__)) + "/props")


def _from_meta(e):
    tb = e.__traceback__
    fns = []
    while tb is not None:
        fns.append(tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return any(f in ("run_meta", "torch_function", "__torch_function__", "_item", "linalg", "dispatch2") for f in fns[-2:])


def run_concrete(h, params, choices, positions, seed, grade=0):
    w = ConcWorld(choices, positions, seed, grade, h.grade_tensors)
    with quiet(), w.live():
        h.fn(w, **params)
    return w


def replay_file(path):
    d = json.load(open(path))
    mod = importlib.import_module(f"symtn.props.{d['property']}")
    h = {x.name: x for x in mod.HARNESSES}[d["harness"]]
    tup = lambda x: tuple(tup(y) for y in x) if isinstance(x, list) else x
    d["params"] = {k: tup(v) for k, v in d["params"].items()}
    for k, g in [(k, 0) for k in range(8)] + [(k, g) for g in (2, 4, 6, 8) for k in range(4)]:
        try:
            run_concrete(h, d["params"], d.get("choices"), d.get("positions"), d.get("seed", 1) + k, g)
        except Violated as e:
            print(f"REPRODUCED (seed {d.get('seed', 1) + k}{f', entries over {g} decades' if g else ''}): {e.label}: {e.detail}")
            return 10
        except Skip:
            continue
        except Exception as e:
            if g:
                continue
            traceback.print_exc()
            if harness_fault(e):
                return 3
            print(f"REPRODUCED: the real code raises {type(e).__name__}: {e}")
            return 10
    print("not reproduced")
    return 0


def load_known(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["known"] if k["property"] == pid]


def matches_known(k, cex):
    return k["harness"] == cex["harness"] and k["label"] in cex["label"] and \
        all(cex["params"].get(a) == b for a, b in k.get("params", {}).items())


class Report:
    """What one instance of a harness produced (sent back by the worker process that ran it)."""

    def __init__(self):
        self.out = {"paths": 0, "asserts": 0, "ops": {}, "symbols": 0, "labels": set(), "colour_reruns": 0}
        self.funcs, self.errors, self.text = set(), [], []
        self.validated = self.violations = 0
        self.stats = {}
        self.wall = 0.


def instances(h, tier):
    """(number, parameters, forced choices): instances with many paths are divided by the values of their first choices"""
    for n, params in enumerate(h.quick if tier == "quick" else h.thorough):
        for c in itertools.product(*[range(k) for _, k in h.split]):
            yield n, params, {name: i for (name, _), i in zip(h.split, c)}


def run_instance(pid, h, n, params, forced, seed, known, verbose):
    """One instance: the solver's verdict over all its paths, then the same assertions on the real kernels."""
    rep = Report()
    t0 = time.monotonic()
    STATS.reset()
    tag = str(n) + "".join(f".{i}" for i in forced.values())
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)

    def concrete():
        for sd in range(seed, seed + (h.seeds if h.validate and not any(forced.values()) else 0)):
            try:
                run_concrete(h, params, None, None, sd)
                rep.validated += 1
            except Skip:
                pass
            except Exception as e:
                if harness_fault(e):
                    rep.errors.append(f"{h.name} {params}: {type(e).__name__} {e}\n" + traceback.format_exc())
                    return
                # the solver's verdict rests on the kernels' contracts; the real code fails on this input
                cex = {"label": getattr(e, "label", f"{type(e).__name__}: {e}"), "kind": "concrete", "property": pid,
                       "harness": h.name, "params": params, "seed": sd, "detail": str(getattr(e, "detail", ""))}
                rp = os.path.join(ROOT, "evidence", "replay", f"{pid}-{h.name}-{tag}c.json")
                json.dump(cex, open(rp, "w"), indent=1, default=str)
                kf = [k for k in known if matches_known(k, cex)]
                if kf:
                    rep.text.append(f"KNOWN-FINDING: property={pid} {kf[0]['what']}")
                    return
                rep.violations += 1
                rep.text.append(f"[{h.name} {params}] run on the real kernels: {cex['label']}: {cex['detail'][-1500:]}")
                rep.text.append(f"VIOLATION property={pid} replay={rp}")
                return

    try:
        with FnTrace() as ft:
            try:
                run_symbolic(h, params, rep.out, forced)
            finally:
                rep.funcs |= ft.seen
        concrete()
    except Counterexample as e:
        cex = dict(e.d, property=pid, harness=h.name, params=params, seed=seed)
        rp = os.path.join(ROOT, "evidence", "replay", f"{pid}-{h.name}-{tag}.json")
        json.dump(cex, open(rp, "w"), indent=1, default=str)
        r = subprocess.run([sys.executable, "-m", "symtn", "--replay", rp], cwd=ROOT,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        kf = [k for k in known if matches_known(k, cex)]
        if r.returncode == 10 and kf:
            rep.text.append(f"KNOWN-FINDING: property={pid} {kf[0]['what']}")
        elif r.returncode == 10:
            rep.violations += 1
            rep.text.append(f"[{h.name} {params}] {cex['label']}: {str(cex['detail'])[-1500:]}")
            rep.text.append(r.stdout[-2000:])
            rep.text.append(f"VIOLATION property={pid} replay={rp}")
        else:
            rep.errors.append(f"{h.name} {params}: counterexample did not reproduce on the real code: "
                              f"{cex['label']} {str(cex['detail'])[-800:]} (see {rp}) {r.stdout[-800:]}")
    except (Unsupported, Inconclusive, paths.PathLimit, Vacuous) as e:
        rep.errors.append(f"{h.name} {params}: {type(e).__name__}: {e}\n" + (traceback.format_exc() if verbose else ""))
        concrete()
    except Exception as e:
        rep.errors.append(f"{h.name} {params}: engine error {type(e).__name__}: {e}\n{traceback.format_exc()}")
    rep.stats = dict(vars(STATS))
    rep.wall = time.monotonic() - t0
    return rep


JOB = None


def _work(i):
    return JOB(i)


def workers():
    n = os.environ.get("SYMTN_JOBS")
    return int(n) if n else max(1, min(8, len(os.sched_getaffinity(0))))


def run_all(todo, job, stop, budget):
    """Run every instance, several at a time in forked processes (they share nothing); yields (index, report).
    `stop`: called after each report, True ends the run."""
    global JOB
    JOB = job
    n = min(workers(), len(todo))
    t0 = time.monotonic()
    left = set(range(len(todo)))
    late = "time budget exhausted"
    if n > 1:
        import concurrent.futures as cf
        import multiprocessing
        ex = cf.ProcessPoolExecutor(n, mp_context=multiprocessing.get_context("fork"))
        try:
            fs = {ex.submit(_work, i): i for i in range(len(todo))}
            procs = list(ex._processes.values())
            try:
                for f in cf.as_completed(fs, timeout=budget):
                    rep = f.result()
                    left.discard(fs[f])
                    yield fs[f], rep
                    if stop():
                        return
                return
            except cf.TimeoutError:
                for i in sorted(left):
                    yield i, late
                return
            except cf.process.BrokenProcessPool:
                pass                        # a worker was ended (memory, say): the rest is done here, one after the other
        finally:
            ex.shutdown(wait=False, cancel_futures=True)
            for p in procs:
                p.kill()
    for i in sorted(left):
        if time.monotonic() - t0 > budget:
            yield i, late
            continue
        yield i, job(i)
        if stop():
            return


def main_check(pid, tier, only=None, keep_going=False, verbose=False):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(f"symtn.props.{pid}")
    known = load_known(pid)
    cov = {"harnesses": [], "functions_encoded": [], "samples": []}
    errors, funcs = [], set()
    viol = 0
    budget = float(os.environ.get("SYMTN_BUDGET", "820" if tier == "quick" else "100000"))
    hs = [h for h in mod.HARNESSES if not only or h.name in only]
    todo = [(h, *x) for h in hs for x in instances(h, tier)]
    if hasattr(mod, "PREPARE"):
        mod.PREPARE()

    def job(i):
        h, n, params, forced = todo[i]
        return run_instance(pid, h, n, params, forced, seed, known, verbose)
    reports = {}
    for i, rep in run_all(todo, job, lambda: viol and not keep_going, budget):
        h, n, params, forced = todo[i]
        if isinstance(rep, str):
            errors.append(f"{h.name} {params}: {rep}")
            continue
        reports[i] = rep
        viol += rep.violations
        for line in rep.text:
            print(line, flush=True)
        if verbose:
            print(f"  {h.name} {params} {forced or ''}: paths={rep.out['paths']} asserts={rep.out['asserts']} wall={rep.wall:.2f}s", flush=True)
    rc = 1 if viol else 0
    sums = lambda reps: {k: sum(r.stats.get(k, 0) for r in reps) for k in vars(STATS)}
    for h in hs:
        reps = [reports[i] for i in sorted(reports) if todo[i][0] is h]
        ops, labels = {}, set()
        for r in reps:
            errors += r.errors
            funcs |= r.funcs
            labels |= r.out["labels"]
            for k, v in r.out["ops"].items():
                ops[k] = ops.get(k, 0) + v
        plist = h.quick if tier == "quick" else h.thorough
        st = sums(reps)
        cov["harnesses"].append({
            "name": h.name, "instances": len(plist), "params": plist if len(plist) <= 12 else plist[:12] + ["..."],
            "bounds": h.bounds, "paths": sum(r.out["paths"] for r in reps), "assertions_decided": sum(r.out["asserts"] for r in reps),
            "queries": st["queries"], "solver_s": round(st["solver_s"], 3),
            "aten_ops_interpreted": dict(sorted(ops.items())), "max_symbols": max([r.out["symbols"] for r in reps], default=0),
            "assertions": sorted(labels)[:40]})
    total = sums(reports.values())
    npaths = sum(h["paths"] for h in cov["harnesses"])
    nasserts = sum(h["assertions_decided"] for h in cov["harnesses"])
    validated = sum(r.validated for r in reports.values())
    for h in cov["harnesses"][:3]:
        cov["samples"].append({"harness": h["name"], "instance": h["params"][0] if h["params"] else None,
                               "assertions": h["assertions"][:5], "queries": h["queries"]})
    if not cov["samples"]:
        cov["samples"].append("none")
    if hasattr(mod, "FUNCTIONS"):
        funcs |= set(mod.FUNCTIONS())
    cov["functions_encoded"] = sorted(funcs)
    cov["states"] = npaths
    cov["transitions"] = sum(sum(h["aten_ops_interpreted"].values()) for h in cov["harnesses"]) + total["branch_queries"]
    cov["traces_validated_against_impl"] = validated
    cov["states_meaning"] = ("feasible symbolic paths completed; each covers all inputs within the bounds. transitions: "
                             "symbolically interpreted tensor operations plus solver-decided branches. "
                             "traces_validated: harness instances re-run on plain torch with the same assertions")
    cov["queries"] = {"total": total["queries"], "proof": total["proof_queries"], "branch": total["branch_queries"],
                      "vacuity": total["vacuity_queries"], "unsat": total["unsat"], "sat": total["sat"],
                      "unknown": total["unknown"], "solver_s": round(total["solver_s"], 3), "solver": "z3 " + z3.get_version_string()}
    cov["assertions_decided"] = nasserts
    cov["errors"] = [e[:600] for e in errors]
    cov["outside_claim"] = getattr(mod, "OUTSIDE", "")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
          "wall_s": round(time.monotonic() - t0, 3), "violations": viol}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
    if rc == 0 and errors:
        for e in errors:
            print("ERROR " + e)
        rc = 2
    elif errors:
        for e in errors:
            print("NOTE " + e)
    print(f"{pid} {tier}: {'ok' if rc == 0 else 'violated' if rc == 1 else 'error'} paths={npaths} "
          f"assertions={nasserts} queries={total['queries']} solver={total['solver_s']:.1f}s "
          f"wall={time.monotonic() - t0:.1f}s validated={validated}")
    return rc


COMMON_ASSUMPTIONS = [
    "exact real/complex arithmetic: floating point rounding is outside the claim",
    "tensor dimensions, lattice sizes and loop counts are fixed per harness instance as listed under bounds",
    "torch kernels implement their documented contracts (they are replaced by symbolic ones; shape and dtype "
    "inference, broadcasting and composite decompositions are torch's own)",
    "norms and maxima used as divisors are nonzero",
]
