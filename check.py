#!/usr/bin/env python3-vt
"""check.py PROPERTY [harness-regex]   decide one property on /repo's working tree"""
import os
import sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lsx"))
sys.path.insert(0, ROOT)
import registry
import runner


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
        sys.argv.remove("--thorough")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = sys.argv[2] if len(sys.argv) > 2 else None
    try:
        rc = runner.check(prop, registry.PROPS[prop], tier, seed, only)
    except runner.BuildError as e:
        print(e)
        rc = 4
    sys.exit(rc)


main()
