"""Path exploration by re-execution: symbolic booleans / integers in ordinary Python code.

`Explorer.run(fn)` executes fn once per feasible path. Every `bool()` of a symbolic condition and
every forced concretisation of a symbolic integer (`range`, indexing, hashing) asks the solver which
outcomes are feasible under the path condition; all feasible outcomes are explored.
"""
from .z3env import z3, solve


class PathLimit(Exception):
    pass


class Infeasible(BaseException):
    """Raised by assume() when the path condition becomes unsatisfiable."""


class Explorer:
    def __init__(self, max_paths=20000):
        self.max_paths = max_paths
        self.prefix = []
        self.trace = []
        self.pc = []
        self.paths = 0
        self.infeasible = 0
        self.active = False
        self._n = 0

    # -- per path state -------------------------------------------------------------------------
    def fresh_name(self, base):
        self._n += 1
        return f"{base}!{self._n}"

    def assume(self, cond):
        if isinstance(cond, SymBool):
            cond = cond.z
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        self.pc.append(cond)
        if len(self.trace) < len(self.prefix):
            return                       # replaying decisions: decided on the path this one branched off from
        v, _ = solve(self.pc, "branch")
        if v == "unsat":
            raise Infeasible()

    def assume_unchecked(self, cond):
        self.pc.append(cond)

    def feasible(self, cond):
        v, _ = solve(self.pc + [cond], "branch")
        return v == "sat"

    def branch(self, cond):
        """cond: z3 Bool. Returns a python bool, exploring both values when both are feasible."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            val = self.prefix[i][0]
            self.trace.append(self.prefix[i])
        else:
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond)) if t else True
            if t and f:
                val, alt = True, True
            else:
                val, alt = t, False
            self.trace.append((val, alt))
        self.pc.append(cond if val else z3.Not(cond))
        return val

    def concretise(self, expr):
        """Fork over every feasible integer value of expr."""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                v, alt, val = self.prefix[i]
                self.trace.append(self.prefix[i])
                if v:
                    self.pc.append(expr == val)
                    return val
                self.pc.append(expr != val)
                continue
            r, m = solve(self.pc, "branch")
            if r == "unsat":
                raise Infeasible()
            val = m.eval(expr, model_completion=True).as_long()
            alt = self.feasible(expr != val)
            self.trace.append((True, alt, val))
            self.pc.append(expr == val)
            return val

    def pick(self, expr, values):
        """Fork over the values of a fresh variable (nothing constrains it yet, so every value is feasible)."""
        for n, val in enumerate(values):
            i = len(self.trace)
            if i < len(self.prefix):
                self.trace.append(self.prefix[i])
                if not self.prefix[i][0]:
                    continue
            else:
                self.trace.append((True, n + 1 < len(values), val))
            self.pc.append(expr == val)
            return val

    # -- driver ---------------------------------------------------------------------------------
    def run(self, fn, on_path_end=None):
        global CURRENT
        self.prefix = []
        while True:
            if self.paths >= self.max_paths:
                raise PathLimit(f"more than {self.max_paths} paths")
            self.trace, self.pc, self._n = [], [], 0
            self.active = True
            old, CURRENT = CURRENT, self
            try:
                fn()
                self.paths += 1
            except Infeasible:
                self.infeasible += 1
            finally:
                CURRENT = old
                self.active = False
            # backtrack
            t = self.trace
            while t and not t[-1][1]:
                t.pop()
            if not t:
                return
            last = t.pop()
            if len(last) == 2:
                t.append((not last[0], False))
            else:
                t.append((False, False, last[2]))
            self.prefix = list(t)


CURRENT = None


def cur():
    if CURRENT is None:
        raise RuntimeError("symbolic branch outside an explorer")
    return CURRENT


# -- symbolic python scalars --------------------------------------------------------------------
def zi(x):
    if isinstance(x, SymInt):
        return x.z
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    return None


class SymBool:
    def __init__(self, z):
        self.z = z

    def __bool__(self):
        if isinstance(self.z, bool):
            return self.z
        return cur().branch(self.z)

    def __and__(self, o):
        return SymBool(z3.And(self.z, o.z if isinstance(o, SymBool) else bool(o)))

    def __or__(self, o):
        return SymBool(z3.Or(self.z, o.z if isinstance(o, SymBool) else bool(o)))

    def __invert__(self):
        return SymBool(z3.Not(self.z))

    def __repr__(self):
        return f"SymBool({self.z})"


class SymInt:
    """A python int whose value is a z3 Int term (python semantics for // and % by positive ints)."""

    def __init__(self, z):
        self.z = z

    def _b(self, o, f):
        o = zi(o)
        if o is None:
            return NotImplemented
        return SymInt(f(self.z, o))

    def _rb(self, o, f):
        o = zi(o)
        if o is None:
            return NotImplemented
        return SymInt(f(o, self.z))

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._rb(o, lambda a, b: a + b)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._rb(o, lambda a, b: a - b)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._rb(o, lambda a, b: a * b)
    def __neg__(self): return SymInt(-self.z)

    def _divisor(self, o):
        d = zi(o)
        if d is None:
            return None
        if isinstance(d, int):
            if d == 0:
                raise ZeroDivisionError("integer modulo by zero")
            return d
        if bool(SymBool(d == 0)):
            raise ZeroDivisionError("integer modulo by zero")
        return d

    @staticmethod
    def _pymod(a, d):
        a = z3.IntVal(a) if isinstance(a, int) else a
        if isinstance(d, int) and d > 0:
            return a % d
        m = a % d           # z3: euclidean, 0 <= m < |d|
        return z3.If(z3.And(d < 0, m != 0), m + d, m)

    def __mod__(self, o):
        d = self._divisor(o)
        return NotImplemented if d is None else SymInt(self._pymod(self.z, d))

    def __floordiv__(self, o):
        d = self._divisor(o)
        if d is None:
            return NotImplemented
        if isinstance(d, int) and d > 0:
            return SymInt(self.z / d)
        return SymInt((self.z - self._pymod(self.z, d)) / d)

    def __rmod__(self, o):
        a = zi(o)
        if a is None:
            return NotImplemented
        return SymInt(a if not isinstance(a, int) else z3.IntVal(a)) % self

    def __rfloordiv__(self, o):
        a = zi(o)
        if a is None:
            return NotImplemented
        return SymInt(a if not isinstance(a, int) else z3.IntVal(a)) // self

    def _c(self, o, f):
        o = zi(o)
        if o is None:
            return NotImplemented
        return SymBool(f(self.z, o))

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._c(o, lambda a, b: a == b)
    def __ne__(self, o): return self._c(o, lambda a, b: a != b)
    def __bool__(self): return bool(SymBool(self.z != 0))
    def __index__(self): return cur().concretise(self.z)
    def __int__(self): return self.__index__()
    def __hash__(self): return hash(self.__index__())
    def __pow__(self, o): return self.__index__() ** o
    def __float__(self): return float(self.__index__())
    def __truediv__(self, o): return self.__index__() / (o.__index__() if isinstance(o, SymInt) else o)
    def __abs__(self): return SymInt(z3.If(self.z >= 0, self.z, -self.z))
    def __str__(self): return f"<{self.z}>"
    __repr__ = __str__
    def __format__(self, spec): return str(self)


def sym_int(name, lo, hi):
    v = z3.Int(name)
    cur().assume(z3.And(v >= lo, v <= hi))
    return SymInt(v)


def sym_bool(name):
    return SymBool(z3.Bool(name))
