#!/usr/bin/env python3
"""seed.py ID PROP FILE NEEDS BREAKS  <<< "OLD\n=====\nNEW"   (several edits: '-----' line and 'FILE:' first)
Creates /verif/seeded/ID/{patch.diff,meta.json} from literal edits of /repo files; demo.sh must be written separately."""
import json, os, subprocess, sys, tempfile, shutil
sid, prop, needs, breaks = sys.argv[1:5]
d = "/verif/seeded/" + sid
os.makedirs(d, exist_ok=True)
out = ""
cur = {}
for block in sys.stdin.read().split("\n-----\n"):
    f, rest = block.lstrip("\n").split("\n", 1)
    old, new = rest.split("\n=====\n")
    new = new.rstrip("\n"); old = old.rstrip("\n")
    s = cur.get(f) or open("/repo/" + f).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    cur[f] = s.replace(old, new)
for f, s in cur.items():
    t = tempfile.mktemp(); open(t, "w").write(s)
    r = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "/repo/" + f, t], capture_output=True, text=True)
    out += r.stdout; os.unlink(t)
open(d + "/patch.diff", "w").write(out)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"], check=True)
print(out)
