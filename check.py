#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decide one property of /repo's current tree by static analysis."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "rules"))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
import rule

if __name__ == "__main__":
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    sys.exit(rule.main(sys.argv[1], tier))
