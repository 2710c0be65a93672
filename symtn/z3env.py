"""z3 access and solver statistics.

The repository's interpreter (/opt/venv) has torch but not z3; the z3 wheel of the verification
tool venv works under it, so its site-packages is appended (never prepended: torch, numpy etc. keep
coming from the repository's own environment).
"""
import sys
import time

_P = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _P not in sys.path:
    sys.path.append(_P)

import z3  # noqa: E402


class Stats:
    def __init__(self):
        self.reset()

    def reset(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.branch_queries = 0
        self.proof_queries = 0
        self.vacuity_queries = 0


STATS = Stats()
TIMEOUT_MS = 120_000


class Inconclusive(Exception):
    """The solver answered unknown: neither a pass nor a violation."""


def solve(assertions, kind="proof", timeout_ms=None):
    """Returns (verdict, model). verdict is 'sat' or 'unsat'; unknown raises Inconclusive."""
    s = z3.Solver()
    s.set("timeout", timeout_ms or TIMEOUT_MS)
    s.set("random_seed", 1)
    for a in assertions:
        s.add(a)
    t = time.monotonic()
    r = s.check()
    STATS.solver_s += time.monotonic() - t
    STATS.queries += 1
    if kind == "branch":
        STATS.branch_queries += 1
    elif kind == "vacuity":
        STATS.vacuity_queries += 1
    else:
        STATS.proof_queries += 1
    if r == z3.sat:
        STATS.sat += 1
        return "sat", s.model()
    if r == z3.unsat:
        STATS.unsat += 1
        return "unsat", None
    STATS.unknown += 1
    raise Inconclusive(f"solver answered unknown ({s.reason_unknown()}) on a {kind} query")
