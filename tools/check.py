#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's working tree.
VERIF_TIER=quick|thorough, VERIF_SEED. Exit 0: held; 1: VIOLATION; other: no verdict."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks, vt
if len(sys.argv) == 3:
    os.environ["VERIF_TIER"] = sys.argv[2]
pid = sys.argv[1]
sys.exit(vt.Check(pid).run(checks.CHECKS[pid]))
