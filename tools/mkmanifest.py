#!/usr/bin/env python3
"""Writes MANIFEST.json from vfconf.py"""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vfconf import CHECKS, NOT_APPLICABLE
HOOK = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines() if "guarded by MDBX_VF_TSAN" in l][0]
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append(dict(property=p, quick_cmd="python3 vf.py check " + p, thorough_cmd="env VERIF_TIER=thorough python3 vf.py check " + p,
                           technique=c["technique"], level=c.get("level", "exploration"), level_note=c["note"]))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "no check built yet")) for p in props if p not in CHECKS]
json.dump(dict(version=1, setup_cmd="python3 vf.py build", checks=checks, not_applicable=na,
               hooks=dict(guard="MDBX_VF_TSAN", enable="only the ThreadSanitizer flavour of the checks defines MDBX_VF_TSAN: it makes the words which the library shares on purpose without ordering volatile, so that ThreadSanitizer reports every other race; all other checks need no hooks and use the public API, the system-call boundary (symbol wrapping at link time) and the bytes of the database file", source_commits=[HOOK])),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
