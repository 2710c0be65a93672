import argparse
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.path.insert(0, os.environ.get("ACETN_REPO", "/repo"))
for k in ("RANK", "WORLD_SIZE", "SLURM_JOB_ID", "ACETN_LOG_LEVEL"):
    os.environ.pop(k, None)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--only", action="append")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    import torch
    torch.set_num_threads(1)
    if a.selftest:
        from .z3env import z3
        x, y = z3.Ints("x y")
        s = z3.Solver()
        s.add(x + y == 5, x > y, y > 0)
        assert s.check() == z3.sat and z3.get_version_string()
        import acetn.ipeps
        print("z3", z3.get_version_string(), "torch", torch.__version__, acetn.ipeps.__file__)
        return
    from . import harness
    if a.replay:
        sys.exit(harness.replay_file(a.replay))
    sys.exit(harness.main_check(a.prop, a.tier, a.only, a.keep_going, a.v))


main()
