#!/usr/bin/env python3
"""Builds the harnesses once; the checks rebuild what they need themselves."""
import sys
from checks import interp
from checks.common import fyi_bin, harness, CheckError
try:
    harness("hmsg")
    harness("hmsg", default=False, release=True, tag="-min")
    harness("hrt")
    harness("hrt", features="sig", tag="-sig")
    harness("hsig", tag="-int")
    harness("hsig", features="winch", tag="-sig")
    fyi_bin()
    print(interp.build() or "Miri is usable")
except CheckError as e:
    print(e)
    sys.exit(1)
