#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]"""
import argparse
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
sys.setrecursionlimit(20000)
import pipeline as P
import props
from report import Report


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    c = props.CHECKS[a.pid]
    rep = Report(a.pid, a.tier, a.seed, c["level"])
    try:
        for f in c["run"]:
            f(rep, a.pid, a.tier, a.seed)
    except P.Broken as x:
        if rep.viol:
            return rep.finish()
        print("no verdict: " + str(x), file=sys.stderr)
        return 2
    return rep.finish()


if __name__ == "__main__":
    try:
        r = main()
    except Exception:
        traceback.print_exc()
        r = 2
    sys.stdout.flush()
    sys.exit(r)
