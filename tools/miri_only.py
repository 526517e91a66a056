#!/usr/bin/env python3
"""The part of a check that runs under Miri, alone: miri_only.py PROPERTY SECONDS [SEED]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if len(sys.argv) > 3:
    os.environ["VERIF_SEED"] = sys.argv[3]
from checks.common import Check
from checks.interp import miri
c = Check(sys.argv[1])
miri(c, sys.argv[1], int(sys.argv[2]), full=sys.argv[1] == "C22")
print(c.counts)
for sig, what, replay in c.violations[:4]:
    print("VIOL", what[:1200], replay)
sys.exit(bool(c.violations))
