#!/usr/bin/env python3
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "harness"))
import build
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
notes = json.load(open(os.path.join(HERE, "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in build.CHECKS:
        n = notes[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": n["technique"], "level": "exploration", "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("na", "No check registered yet; the generator and oracle are described in DESIGN.md.")})
m = {"version": 1, "setup_cmd": "python3 harness/build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks are compiled into /repo; the checks build /repo's sources (mirrored by content into build/src) with their own build files. See DESIGN.md and KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
