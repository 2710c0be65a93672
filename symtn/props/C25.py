"""Operator algebra: expressions over Pauli operators equal the complex matrices they denote."""
import torch
from ..harness import Harness
from . import util

DEV = torch.device("cpu")


class Val:
    """an operator of the library together with the matrix it denotes and the parity of its number of Y factors"""

    def __init__(self, op, mat, odd):
        self.op, self.mat, self.odd = op, mat, odd


def leaves(w, real, names):
    """the library's operators, or operators with generic matrices ("G" / "H": no Y factor, "O": one Y factor)"""
    from acetn.model.pauli_matrix import PauliMatrix, pauli_matrices
    dt = torch.float64 if real else torch.complex128
    w.dtype = dt
    with w.concrete():
        X, Y, Z, I = pauli_matrices(dt, DEV)
        i = 1 if real else 1j         # with a real dtype an odd product stands for its matrix divided by i
        true = {"X": [[0, 1], [1, 0]], "Y": [[0, -i], [i, 0]], "Z": [[1, 0], [0, -1]], "I": [[1, 0], [0, 1]]}
        true = {k: torch.tensor(v, dtype=dt) for k, v in true.items()}
    out = {"X": Val(X, true["X"], 0), "Y": Val(Y, true["Y"], 1), "Z": Val(Z, true["Z"], 0), "I": Val(I, true["I"], 0)}
    for n, key, d in (("G", "X", 2), ("H", "Z", 2), ("O", "Y", 2)):
        if n in names:
            m = w.tensor(n, d, d)
            out[n] = Val(PauliMatrix(key, dt, DEV, mat=m), m, int(key == "Y"))
    return {n: out[n] for n in names}


def kron(a, b):
    n, m = a.shape[0], b.shape[0]
    return torch.einsum("ab,cd->acbd", a, b).reshape(n * m, n * m)


def combine(w, op, a, b, real):
    if op in ("*", "*="):
        m = kron(a.mat, b.mat)
        if real and a.odd and b.odd:
            m = -1. * m               # (i a)(i b) = -ab
        if op == "*=":
            x = a.op
            x *= b.op                 # documented to give the plain tensor
            x = util.Obj(mat=getattr(x, "mat", x), dtype=x.dtype, device=x.device)
            w.equal(a.op.mat, a.mat, "an in-place product makes a new operator", allow_zero=True)
            return Val(x, m, (a.odd + b.odd) % 2)
        return Val(a.op * b.op, m, (a.odd + b.odd) % 2)
    if op == "+":
        return Val(a.op + b.op, a.mat + b.mat, a.odd)
    return Val(a.op - b.op, a.mat - b.mat, a.odd)


def unary(w, f, a, c):
    if f == "neg":
        return Val(-a.op, -1. * a.mat, a.odd)
    if f == "c*":
        return Val(c * a.op, c * a.mat, a.odd)
    if f == "*c":
        return Val(a.op * c, c * a.mat, a.odd)
    if f == "/c":
        return Val(a.op / c, a.mat / c, a.odd)
    if f == "2*":
        return Val(2 * a.op, a.mat + a.mat, a.odd)
    if f == "*=":
        x = a.op
        x *= c
        return Val(x, c * a.mat, a.odd)
    return a


def check(w, v, real, label):
    w.require(v.op.mat.shape == v.mat.shape, "the size of the result")
    if real and v.odd:
        return                        # not representable: no further claim
    w.equal(v.op.mat, v.mat, label, allow_zero=True)     # e.g. a*b - a*b
    w.require(v.op.dtype == v.mat.dtype and v.op.device == DEV, "the result keeps dtype and device")


def basics(w, real):
    for n, v in leaves(w, real, ("X", "Y", "Z", "I")).items():
        w.equal(v.op.mat, v.mat, f"the matrix of {n}", allow_zero=True)
        w.require(v.op.key == n, "the operator's name")


def trees(w, real, names, ops, pre):
    """(a o b) o c and a o (b o c) with one scaled or negated subexpression"""
    L = leaves(w, real, names)
    c = w.scalar("c")
    left = w.flip("left")
    a, b, d = (L[w.choose(n, names)] for n in ("a", "b", "d"))
    o1, o2 = w.choose("o1", ops), w.choose("o2", ops)
    if o1 != "*" and o2 != "*" and not pre:
        o2 = "*"
    f = w.choose("f", pre) if pre else "id"
    where = w.choose("where", (0, 1, 2)) if f != "id" else 0

    def join(o, x, y):
        # operands of sums have the same size and, with a real dtype, the same parity
        if o != "*" and (x.mat.shape != y.mat.shape or (real and x.odd != y.odd)):
            o = "*"
        return combine(w, o, x, y, real)
    if where == 0:
        a = unary(w, f, a, c)
    if left:
        x = join(o1, a, b)
        if where == 1:
            x = unary(w, f, x, c)
        r = join(o2, x, d)
    else:
        x = join(o2, b, d)
        if where == 1:
            x = unary(w, f, x, c)
        r = join(o1, a, x)
    if where == 2:
        r = unary(w, f, r, c)
    check(w, r, real, "an expression equals the matrix it denotes")


def words(w, n, real):
    """products of n operators in every bracketing"""
    L = leaves(w, real, ("Y", "G"))
    vs = [L[w.choose(f"l{i}", ("Y", "G"))] for i in range(n)]
    i = 0
    op = w.choose("op", ("*", "*=")) if n == 2 else "*"
    while len(vs) > 1:
        j = w.choose(f"m{i}", tuple(range(len(vs) - 1)))
        vs[j:j + 2] = [combine(w, op, vs[j], vs[j + 1], real)]
        i += 1
    check(w, vs[0], real, "a product equals the tensor product of its factors in order")


def sums(w, real, names, forms):
    """sums of products used as factors: (a*b + c*d) * e, e * (a*b - c*d), (a*b + c*d) * (e*f)"""
    L = leaves(w, real, ("Y", "G", "O"))
    pick = lambda n, opts=names: L[w.choose(n, opts)]
    a, b, c = pick("a"), pick("b"), pick("c", ("Y", "G"))
    if real and (a.odd + b.odd + c.odd) % 2 == 1:
        d = L["Y"]                    # both summands are real or both imaginary
    elif real:
        d = L["G"]
    else:
        d = pick("d", ("Y", "G"))
    x, y = combine(w, "*", a, b, real), combine(w, "*", c, d, real)
    s = combine(w, w.choose("o", ("+", "-")), x, y, real)
    check(w, s, real, "a sum of products")
    e = pick("e", ("Y", "G"))
    form = w.choose("form", forms)
    r = combine(w, "*", s, e, real) if form == "left" else combine(w, "*", e, s, real) if form == "right" else combine(w, "*", s, x, real)
    check(w, r, real, "a product with a sum")


U = ("id", "neg", "c*", "*c", "/c", "2*", "*=")


def scaled(w, real):
    """a scaled or negated operator, product or sum, used as a factor"""
    L = leaves(w, real, ("Y", "G", "O"))
    pick = lambda n, opts=("Y", "G"): L[w.choose(n, opts)]
    x = pick("a")
    form = w.choose("of", ("one", "product", "sum"))
    if form == "product":
        x = combine(w, "*", x, pick("b"), real)
    elif form == "sum":
        x = combine(w, "+", x, L["O"] if real and x.odd else L["G"] if real else pick("b"), real)
    x = unary(w, w.choose("f", U), x, w.scalar("c"))
    check(w, x, real, "a scaled operator")
    y = pick("d")
    check(w, combine(w, "*", x, y, real) if w.flip("left") else combine(w, "*", y, x, real), real, "a product with a scaled operator")


HARNESSES = [Harness("basics", basics, [dict(real=r) for r in (True, False)], [dict(real=r) for r in (True, False)], "the four matrices"),
             Harness("scaled", scaled, [dict(real=r) for r in (True, False)], [dict(real=r) for r in (True, False)],
                     "operators, products and sums under every scaling; symbolic scalars", max_paths=20000),
             Harness("trees", trees, [dict(real=True, names=("Y", "G"), ops=("*", "+", "-"), pre=("id", "neg"))],
                     [dict(real=r, names=("X", "Y", "Z", "G", "O"), ops=("*", "+", "-"), pre=("id", "neg", "c*")) for r in (True, False)],
                     "every expression of three operators (Y and generic matrices; thorough: also X, Z), two binary operations and one negation",
                     max_paths=60000),
             Harness("words", words, [dict(n=n, real=r) for n in (2, 4) for r in (True, False)] + [dict(n=3, real=False), dict(n=3, real=True)],
                     [dict(n=n, real=r) for n in (2, 3, 4, 5) for r in (True, False)], "products of up to 4 (5) operators in all bracketings", max_paths=20000),
             Harness("sums", sums, [dict(real=True, names=("Y", "G"), forms=("left", "right", "square")), dict(real=False, names=("Y", "G"), forms=("left",))],
                     [dict(real=r, names=("Y", "G", "O"), forms=("left", "right", "square")) for r in (True, False)], "factors that are sums of products", max_paths=20000)]
ASSUMPTIONS = ["with a real dtype, sums of operators of different Y parity denote no real matrix and are outside the claim"]
