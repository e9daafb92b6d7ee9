"""python -m sim.run <ID> [--tier quick|thorough] [--seed N] [--replay FILE] [--digests i,j]"""
import os, sys
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
if os.environ.get("PYTHONHASHSEED") is None:   # fix the hash seed: part of the seam list
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-m", "sim.run"] + sys.argv[1:])
import argparse
from sim import core

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--digests")
    ap.add_argument("--show", type=int)
    a = ap.parse_args()
    if a.replay:
        return core.replay(a.id, a.replay)
    if a.digests:
        return core.digests(a.id, [int(x) for x in a.digests.split(",")], a.seed, a.tier)
    if a.show is not None:
        import importlib, json
        print(json.dumps(core.scenario_for(importlib.import_module(f"sim.checks.{a.id.lower()}"), a.seed, a.show, a.tier), indent=1))
        return 0
    return core.run_check(a.id, a.tier, a.seed)

sys.exit(main())
