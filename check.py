#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] -- runs one registered check."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import checks

if __name__ == "__main__":
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.exit(checks.run(prop, tier, seed))
