#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import REGISTRY, ABOUT
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"), encoding="utf-8")]
checks = []
for p in props:
    if p in REGISTRY:
        tech, note, level = ABOUT[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": level, "level_note": note})
na = [{"property": p, "reason": "check under construction"} for p in props if p not in REGISTRY]
m = {"version": 1, "setup_cmd": "python3 setup.py", "hooks": {"guard": "none", "enable": "no hooks: the checks use the public interface and interpose libc calls inside their own processes", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds what it needs from /repo's working tree into /verif/target*. VERIF_SEED seeds every random choice; VERIF_TIER=thorough runs longer."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
