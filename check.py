#!/usr/bin/env python3
"""Decide one property: check.py ID. Exit 0 held, 1 violated, 2 error of the check."""
import sys, traceback
from checks import REGISTRY
from checks.common import CheckError

def main():
    if len(sys.argv) < 2 or sys.argv[1] not in REGISTRY:
        print("usage: check.py " + "|".join(sorted(REGISTRY)))
        return 2
    try:
        return REGISTRY[sys.argv[1]](sys.argv[1])
    except CheckError as e:
        print("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        return 2

if __name__ == "__main__":
    sys.exit(main())
