#!/usr/bin/env python3
"""check.py <property id> : decide one property on /repo's current tree."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import report
if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    sys.exit(report.run(sys.argv[1], tier if tier in ("quick", "thorough")
                        else "quick"))
