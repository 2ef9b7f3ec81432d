#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current tree."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from hsa import core  # noqa: E402

if __name__ == "__main__":
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(2)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if sys.argv[1] == "all":
        from hsa import program, rules
        rules.load_all()
        prog = program.load()
        rc = 0
        for pid in sorted(core.RULES):
            r = core.run(pid, tier, prog)
            if r:
                print("  ==> %s exit %d" % (pid, r))
            rc = max(rc, r)
        sys.exit(rc)
    sys.exit(core.run(sys.argv[1], tier))
