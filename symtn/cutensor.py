"""Symbolic execution of the compiled extension (csrc).

The repository's C++ sources are compiled as they are, with libtorch, against a shim (cut/shim.h, cut/shim.cpp): every ATen
operation they perform on symbolic tensors reaches the same dispatcher mode as the python code, their floating point
numbers are a type that may hold a symbolic term, and the calls into the GPU libraries, which cannot run here, are performed
below from the descriptors they are given (extents, strides, modes, operators, raw pointers), by the libraries' contracts.
The same binary runs on plain numbers for replays.
"""
import contextlib
import ctypes
import hashlib
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
import time
import torch
from torch.utils._python_dispatch import _disable_current_modes

from . import sdom, stensor
from .sdom import Unsupported
from .stensor import SymScalar, SymTensor, eng

HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(os.path.dirname(HERE), ".cache")
SITE = os.path.dirname(os.path.dirname(torch.__file__))


class BuildError(Exception):
    pass


# ---- building -----------------------------------------------------------------------------------------------------------
def build(repo):
    src = os.path.join(repo, "csrc")
    if not os.path.isdir(src):
        raise Unsupported("csrc is missing")
    files = sorted(os.path.join(d, f) for d, _, fs in os.walk(src) for f in fs if f.endswith((".cpp", ".h", ".hpp", ".cuh")))
    shim = [os.path.join(HERE, "cut", f) for f in ("shim.h", "shim.cpp")]
    key = hashlib.sha256(torch.__version__.encode())
    for f in files + shim:
        key.update(os.path.basename(f).encode() + b"\0" + open(f, "rb").read() + b"\0")
    dest = os.path.join(CACHE, key.hexdigest()[:32], "_C_cutensor.so")
    if os.path.exists(dest):
        return dest
    failed = os.path.dirname(dest) + ".failed"         # the other instances of this run need not try again
    if os.path.exists(failed) and time.time() - os.path.getmtime(failed) < 600:
        raise BuildError(open(failed).read())
    inc = ["-I" + src, "-I" + os.path.join(src, "linalg"), "-I" + os.path.join(src, "evolution"), "-I" + os.path.join(HERE, "cut")]
    for p in ("cutensor/include", "nvidia/cu13/include", "torch/include", "torch/include/torch/csrc/api/include"):
        inc += ["-isystem", os.path.join(SITE, p)]
    import sysconfig
    inc += ["-isystem", sysconfig.get_paths()["include"]]
    flags = ["-std=c++20", "-fPIC", "-O0", "-w", "-DTORCH_EXTENSION_NAME=_C_cutensor", "-DTORCH_API_INCLUDE_EXTENSION_H"]
    tmp = tempfile.mkdtemp(prefix="symtncxx")
    try:
        jobs = []
        for f in [x for x in files if x.endswith(".cpp")] + [shim[1]]:
            o = os.path.join(tmp, os.path.relpath(f, "/").replace("/", "_") + ".o")
            c = ["g++", *flags, *inc, *([] if f == shim[1] else ["-include", shim[0]]), "-c", f, "-o", o]
            jobs.append((f, o, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        outs = [(f, o, p, p.communicate()[0]) for f, o, p in jobs]
        for f, o, p, txt in outs:
            if p.returncode:
                if " error: " in txt:
                    os.makedirs(CACHE, exist_ok=True)
                    with open(failed, "w") as fh:
                        fh.write(f"{f}: {txt[:3000]}")
                raise BuildError(f"{f}: {txt}")
        so = os.path.join(tmp, "_C_cutensor.so")
        L = os.path.join(SITE, "torch", "lib")
        r = subprocess.run(["g++", "-shared", "-Wl,-Bsymbolic", "-o", so, *[o for _, o, _, _ in outs], "-L" + L, "-lc10", "-lc10_cuda",
                            "-ltorch", "-ltorch_cpu", "-ltorch_cuda", "-ltorch_python", "-Wl,-rpath," + L],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(r.stdout[:3000])
        os.makedirs(os.path.dirname(dest), exist_ok=True)
        part = dest + f".{os.getpid()}"
        shutil.copy(so, part)
        os.replace(part, dest)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dest


_MODULE = None


def module(repo):
    global _MODULE
    if _MODULE is None:
        spec = importlib.util.spec_from_file_location("_C_cutensor", build(repo))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _MODULE = m
    return _MODULE


def functions(repo):
    """names of the functions defined by the sources (for the evidence)"""
    import re
    out = []
    for d, _, fs in os.walk(os.path.join(repo, "csrc")):
        for f in sorted(fs):
            if f.endswith((".cpp", ".h")):
                t = open(os.path.join(d, f)).read()
                for m in re.finditer(r"^[\w:<>,&*\s]*?\b([\w:<>]+)\s*\([^;{}]*\)\s*(?:const\s*)?(?:override\s*)?(?::[^{;]*)?\{", t, re.M):
                    n = m.group(1)
                    if n not in ("if", "for", "while", "switch", "catch"):
                        out.append(f"csrc/{os.path.relpath(os.path.join(d, f), os.path.join(repo, 'csrc'))}:{n}")
    return sorted(set(out))


# ---- the session: memory, numbers and observations ----------------------------------------------------------------------
class Session:
    def __init__(self, workspace=64, failing=()):
        self.failing = failing     # which allocations of device memory fail
        self.allocs = 0
        self.alloc = {}            # storage address -> (tensor owning the memory, its backing storage)
        self.terms = [None]
        self.factors = {}          # address -> (upper, n, L, version)
        self.log = []
        self.wsize = workspace

    # memory behind symbolic tensors
    def backing(self, meta, base):
        with _disable_current_modes(), torch._C.DisableTorchFunctionSubclass():
            if base is not None and getattr(base, "_mem", None) is not None and meta.dtype == base._mem.dtype and \
                    meta.untyped_storage()._cdata == base._meta.untyped_storage()._cdata:
                return base._mem.as_strided(meta.size(), meta.stride(), meta.storage_offset()), False
            n = 1 + sum((s - 1) * t for s, t in zip(meta.size(), meta.stride())) if meta.numel() else 0
            raw = torch.zeros(max(n, 1), dtype=meta.dtype)
            return raw.as_strided(meta.size(), meta.stride()), True

    def own(self, t, mem):
        with _disable_current_modes(), torch._C.DisableTorchFunctionSubclass():
            self.alloc[mem.untyped_storage().data_ptr()] = (t, mem)

    def owner(self, ptr):
        if ptr in self.alloc:
            return self.alloc[ptr][0]
        raise Unsupported("pointer into the middle of a tensor, or to no tensor")


SESSION = None


@contextlib.contextmanager
def session(engine=None, workspace=64, failing=()):
    global SESSION
    old = SESSION
    SESSION = Session(workspace, failing)
    SESSION.engine = engine
    if engine is not None:
        engine.memory = SESSION
    try:
        yield SESSION
    finally:
        if engine is not None:
            engine.memory = None
        SESSION = old


# ---- numbers ------------------------------------------------------------------------------------------------------------
def term(i):
    return SESSION.terms[i]


def intern(x):
    if isinstance(x, torch.Tensor):
        x = eng().item(x) if isinstance(x, SymTensor) else x.item()
    if isinstance(x, complex) and x.imag == 0:
        x = x.real
    if isinstance(x, (int, float)):
        return float(x), 0
    if isinstance(x, SymScalar):
        c = eng().dom.const_scalar(x.val)
        if c is not None and c[1] == 0:
            return float(c[0]), 0
        SESSION.terms.append(x)
        return 0., len(SESSION.terms) - 1
    raise TypeError(f"{type(x).__name__} is not a number")


def concrete(x):
    return float(x)


def binary(op, a, b):
    return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b}[op]()


def compare(op, a, b):
    return bool({"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b,
                 "eq": lambda: a == b, "ne": lambda: a != b}[op]())


def unary(op, a):
    return {"neg": lambda: -a, "abs": lambda: abs(a), "sqrt": lambda: a ** 0.5}[op]()


def item(t):
    if isinstance(t, SymTensor):
        return eng().item(t)
    return t.item()


def tensor_op(op, t, a, left):
    return binary(op, a, t) if left else binary(op, t, a)


# ---- memory access ------------------------------------------------------------------------------------------------------
DT = {0: torch.float32, 1: torch.float64, 4: torch.complex64, 5: torch.complex128}        # cudaDataType_t
CODE = {"f4": torch.float32, "f8": torch.float64, "c8": torch.complex64, "c16": torch.complex128}


def order(ext, stride):
    """dimensions from the slowest to the fastest, if they tile the memory without gaps"""
    p = sorted((d for d in range(len(ext)) if ext[d] > 1), key=lambda d: -stride[d])
    n = 1
    for d in reversed(p):
        if stride[d] != n:
            return None
        n *= ext[d]
    return [d for d in range(len(ext)) if ext[d] <= 1] + p


def flat(t):
    p = order(tuple(t.shape), tuple(t._meta.stride()))
    if p is None:
        raise Unsupported("tensor with gaps handed to a library")
    return p


def numel(e):
    n = 1
    for x in e:
        n *= x
    return n


def raw(ptr, n, dtype):
    buf = (ctypes.c_char * (max(n, 1) * dtype.itemsize)).from_address(ptr)
    return torch.frombuffer(buf, dtype=dtype, count=max(n, 1))


def read(ptr, ext, stride, dtype):
    if SESSION.engine is None:
        return raw(ptr, 1 + sum((e - 1) * s for e, s in zip(ext, stride)), dtype).as_strided(ext, stride).clone()
    t = SESSION.owner(ptr)
    if t.dtype != dtype:
        raise RuntimeError(f"memory of type {t.dtype} is read as {dtype}")
    p, q = flat(t), order(ext, stride)
    if q is None or numel(ext) != t.numel():
        raise Unsupported("library call on a part of a tensor")
    v = sdom.permute(t.v, p)
    v = sdom.reshape(v, tuple(ext[d] for d in q))
    v = sdom.permute(v, [q.index(i) for i in range(len(q))])
    with _disable_current_modes():
        m = torch.empty(tuple(ext), dtype=dtype, device="meta")
    return SymTensor(v, m)


def write(ptr, ext, stride, x, dtype):
    if SESSION.engine is None:
        raw(ptr, 1 + sum((e - 1) * s for e, s in zip(ext, stride)), dtype).as_strided(ext, stride).copy_(x)
        return
    t = SESSION.owner(ptr)
    if t.dtype != dtype:
        raise RuntimeError(f"memory of type {t.dtype} is written as {dtype}")
    p, q = flat(t), order(ext, stride)
    if q is None or numel(ext) != t.numel():
        raise Unsupported("library call on a part of a tensor")
    v = sdom.reshape(sdom.permute(eng().lift(x), q), tuple(t.shape[d] for d in p))
    t.write(sdom.permute(v, [p.index(i) for i in range(len(p))]))


# ---- cuTENSOR -----------------------------------------------------------------------------------------------------------
IDENTITY, CONJ = 1, 9


def exhausted():
    """does this allocation of device memory fail?"""
    SESSION.allocs += 1
    return SESSION.allocs - 1 in SESSION.failing


def workspace(pref):
    return SESSION.wsize if pref != 1 else min(SESSION.wsize, 16)


def contract(ts, alpha, beta, compute, wptr, wsize, limit):
    if wsize < limit or (limit and not wptr):
        raise RuntimeError("cuTENSOR error: insufficient workspace")
    (pa, ea, sa, ma, ta, oa), (pb, eb, sb, mb, tb, ob), (pc, ec, sc, mc, tc, oc), (pd, ed, sd, md, td, _) = ts
    if pd in (pa, pb):
        raise RuntimeError("the output of a contraction overlaps one of its inputs")
    if not (ta == tb == tc == td) or ta not in DT:
        raise RuntimeError("mixed types in a contraction")
    dt = DT[td]
    SESSION.log.append(("compute", dt, {5: 32, 6: 64}.get(compute, 0)))
    dim = {}
    for m, e in ((ma, ea), (mb, eb), (mc, ec), (md, ed)):
        for x, n in zip(m, e):
            if dim.setdefault(x, n) != n:
                raise RuntimeError("cuTENSOR error: extents of a mode differ")
    if md != mc or ed != ec or sd != sc or pc != pd:
        raise Unsupported("accumulating contraction into another tensor")
    for o in (oa, ob, oc):
        if o not in (IDENTITY, CONJ):
            raise Unsupported("element-wise operator in a contraction")
    if any(x not in ma and x not in mb for x in md) or len(set(md)) != len(md):
        raise RuntimeError("cuTENSOR error: output modes")
    ab = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
    names = {x: ab[i] for i, x in enumerate(dim)}
    sub = lambda m: "".join(names[x] for x in m)
    A, B = read(pa, ea, sa, dt), read(pb, eb, sb, dt)
    A, B = A.conj() if oa == CONJ else A, B.conj() if ob == CONJ else B
    r = torch.einsum(f"{sub(ma)},{sub(mb)}->{sub(md)}", A, B)
    if not (isinstance(alpha, float) and alpha == 1.):
        r = r * alpha
    if not (isinstance(beta, float) and beta == 0.):
        C = read(pc, ec, sc, dt)
        r = r + (C.conj() if oc == CONJ else C) * beta
    write(pd, ed, sd, r, dt)


# ---- cuSOLVER -----------------------------------------------------------------------------------------------------------
def set_info(ptr, i):
    write(ptr, [1], [1], torch.full((1,), i, dtype=torch.int32), torch.int32)


def version(ptr):
    return SESSION.owner(ptr).version() if SESSION.engine is not None else None


def potrf(code, upper, n, A, lda, work, lwork, info):
    """factorisation of the Hermitian matrix whose lower (upper) triangle is stored, column by column, at A"""
    dt = CODE[code]
    if lda < n or lwork < 8:
        raise RuntimeError("cuSOLVER error code: 3")
    st = [1, lda]
    M = read(A, [n, n], st, dt)
    low = M.mH if upper else M                  # its lower triangle is the stored one
    if SESSION.engine is not None and sdom.same(low.v, low.mH.v):
        H = low
    else:
        H = torch.tril(low) + torch.tril(low, -1).mH
    other = torch.tril(M, -1) if upper else torch.triu(M, 1)
    try:
        L = torch.linalg.cholesky(H)
    except torch.linalg.LinAlgError:
        write(A, [n, n], st, torch.empty(n, n, dtype=dt) if SESSION.engine is not None else M * 0.5, dt)      # unspecified
        set_info(info, 1)
        return
    write(A, [n, n], st, (L.mH if upper else L) + other, dt)
    SESSION.factors[A] = (bool(upper), n, L, version(A))
    set_info(info, 0)


def potrs(code, upper, n, nrhs, A, lda, B, ldb, info):
    dt = CODE[code]
    if lda < n or ldb < n:
        raise RuntimeError("cuSOLVER error code: 3")
    M = read(A, [n, n], [1, lda], dt)
    R = read(B, [n, nrhs], [1, ldb], dt)
    f = SESSION.factors.get(A)
    if f is not None and f[0] == bool(upper) and f[1] == n and f[3] == version(A):
        L = f[2]
    else:
        L = torch.triu(M).mH if upper else torch.tril(M)
    write(B, [n, nrhs], [1, ldb], torch.cholesky_solve(R, L), dt)
    set_info(info, 0)
