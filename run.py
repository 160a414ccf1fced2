#!/opt/venv/bin/python
"""run.py PROPERTY [quick|thorough]: decide one property; run.py replay FILE"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)

from engine import load  # noqa: E402

load.setup_env()
from engine import harness  # noqa: E402


def main():
    if sys.argv[1] == "replay":
        with open(sys.argv[2]) as f:
            d = json.load(f)
        r = harness.replay([d["task"]], "manual")[0]
        print(json.dumps({"label": d["label"], "inputs": d["task"]["inputs"], "result": r}, indent=1))
        return 1 if (d["label"] in r["failed"] or r["raised"]) else 0
    if sys.argv[1] == "selftest":
        import z3

        s = z3.Solver()
        x = z3.Real("x")
        s.add(x * x == 2, x > 0)
        assert s.check() == z3.sat
        load.load_real()
        print("ok", z3.get_version_string())
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return harness.run_property(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1")))


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
