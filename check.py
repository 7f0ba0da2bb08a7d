#!/usr/bin/env python3
"""Runs the check of one property: check.py <property id> [quick|thorough]."""
import os, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [f"{VERIF}/lib", f"{VERIF}/checks"]
sys.setrecursionlimit(20000)
import facts, report
from registry import REGISTRY


def main():
    id = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    module, function, technique = REGISTRY[id]
    check = report.Check(id, technique)
    try:
        getattr(__import__(module), function)(check)
    except facts.BuildError as e:
        print(f"{id}: {e}", file=sys.stderr)
        return 2
    return report.finish(check)


if __name__ == "__main__":
    sys.exit(main())
