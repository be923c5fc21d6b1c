#!/usr/bin/env python3
"""Sensitivity probe: mut.py PROP[,PROP] FILE OLD NEW [--only FACET]  (literal replace of the first occurrence, in a scratch copy)
   or mut.py PROP --patch FILE.diff"""
import os, shutil, subprocess, sys
M = "/tmp/mutrepo" + os.environ.get("MUT", "")  # MUT: suffix, for parallel runs
B = "/tmp/mutbuild" + os.environ.get("MUT", "")
args = sys.argv[1:]
extra = []
if "--only" in args:
    i = args.index("--only"); extra = args[i:i+2]; del args[i:i+2]
os.makedirs(M, exist_ok=True)
subprocess.run(["rsync", "-ac", "--delete", "--exclude", "_build", "--exclude", ".git", "/repo/", M + "/"], check=True)
if args[1] == "--patch":
    subprocess.run(["patch", "-p1", "-s", "-d", M, "-i", os.path.abspath(args[2])], check=True)
else:
    p = os.path.join(M, args[1]); s = open(p).read()
    n = s.count(args[2])
    assert n >= 1, "pattern not found"
    if n > 1: print("note: %d occurrences, first replaced" % n)
    open(p, "w").write(s.replace(args[2], args[3], 1))
rc = 0
for prop in args[0].split(","):
    if not os.path.isdir(B):
        shutil.copytree("/verif/build", B)
    r = subprocess.run([sys.executable, "/verif/check.py", prop] + extra, env=dict(os.environ, VP_REPO_OVERRIDE=M, VP_BUILD_OVERRIDE=B, VP_NO_EVIDENCE="1"), capture_output=True, text=True)
    out = r.stdout
    print("%s rc=%d %s" % (prop, r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "ERROR"))
    keep = [l for l in out.splitlines() if "VIOLATION" in l or l.startswith("  facet") or l.startswith("  case") or "UNSTABLE" in l or "ERROR" in l or "error" in l]
    print("\n".join(x[:400] for x in keep[:12]))
    if r.returncode not in (0, 1): print(r.stderr[-1500:])
