#!/usr/bin/env python3
"""check.py <property-id> [--tier quick|thorough]   (or: check.py all)"""
import argparse
import gc
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
gc.disable()  # short-lived process, no reference cycles in the hot path
from rsa import core  # noqa: E402
from rsa.registry import PROPERTIES  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ids = sorted(PROPERTIES) if a.property == "all" else [a.property]
    rc = 0
    for pid in ids:
        rc = max(rc, core.run_property(pid, PROPERTIES[pid], a.tier, seed))
    return rc


if __name__ == "__main__":
    sys.exit(main())
