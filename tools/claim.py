#!/usr/bin/env python3
# usage: claim.py ID "technique" "note"   -- records the notes of a check and regenerates the manifest
import json, os, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
d = json.load(open(H + "/notes.json"))
d[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
json.dump(d, open(H + "/notes.json", "w"), indent=1, sort_keys=True)
subprocess.check_call([sys.executable, H + "/gen_manifest.py"])
