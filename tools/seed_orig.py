#!/usr/bin/env python3
"""seed_orig.py ID...: are the lines the planted bug changes lines of the original repository?"""
import re, subprocess, sys
base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
for i in sys.argv[1:]:
    f = None; bad = []; n = 0
    for l in open("/verif/seeded/%s/patch.diff" % i):
        l = l.rstrip("\n")
        if l.startswith("--- a/"):
            f = l[6:]
            bl = {}
            for b in subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "HEAD", "--", f], capture_output=True, text=True).stdout.splitlines():
                m = re.match(r"\^?(\w+)\s+.*?(\d+)\)", b); bl[int(m.group(2))] = base.startswith(m.group(1)) or m.group(1)[:30] == base[:30]
        elif l.startswith("@@"):
            k = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("+++"):
            pass
        elif l.startswith("-"):
            n += 1
            if not bl[k]: bad.append((f, k, l))
            k += 1
        elif l.startswith(" "):
            k += 1
    print(i, "removed lines:", n, "not original:", bad)
