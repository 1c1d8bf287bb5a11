#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--runs N] [--jobs N] [-v]"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)

from dsim import runner  # noqa: E402
import registry  # noqa: E402


def main():
    if sys.argv[1:2] == ["--digest"]:
        prop, eng, i, tier, seed = sys.argv[2:7]
        print(runner.execute(runner.gen_plan(eng, prop, int(seed), tier, int(i)))["digest"])
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--engine")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--cap", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    reg = registry.CHECKS[a.prop]
    eng = reg[a.tier]
    if a.engine:
        eng = [(n, c) for n, c in eng if n == a.engine]
    cap = a.cap or (700 if a.tier == "quick" else 5400)
    return runner.check(a.prop, eng, a.tier, a.seed, jobs=a.jobs, time_cap=cap, min_budget=60 if a.tier == "quick" else 240,
        title=registry.title(a.prop), real=reg["real"], stub=reg["stub"], verbose=a.v, runs_override=a.runs)


if __name__ == "__main__":
    sys.exit(main())
