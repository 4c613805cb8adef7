#!/opt/veriftools/pyvenv/bin/python3
"""check.py ID [--tier quick|thorough] [--seed N]   decides one property (see MANIFEST.json)
check.py --replay FILE                              re-runs a recorded violation
check.py --build                                    builds everything (setup)
check.py --determinism                              the simulator's own self-test"""
import argparse, os, sys
os.environ.setdefault("PYTHONHASHSEED", "0")
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from simlib import build, core
from simlib.sim import HarnessError


def main():
    a = argparse.ArgumentParser()
    a.add_argument("id", nargs="?")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    a.add_argument("--replay")
    a.add_argument("--build", action="store_true")
    a.add_argument("--determinism", action="store_true")
    a.add_argument("--count", type=int)
    a.add_argument("--jobs", type=int)
    a.add_argument("--cap", type=float)
    a.add_argument("-v", action="store_true")
    o = a.parse_args()
    try:
        if o.build:
            print(build.build())
            return 0
        if o.replay:
            return core.main_replay(o.replay)
        if o.determinism:
            from simlib import selftest
            return selftest.main(o.seed)
        return core.main_check(o.id, o.tier, o.seed, o.jobs, o.count, o.cap, o.v)
    except build.BuildError as e:
        print("BUILD ERROR:", e)
        return 3
    except HarnessError as e:
        print("HARNESS ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
