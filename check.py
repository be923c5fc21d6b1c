#!/usr/bin/env python3
"""Runs the check of one property: build from /repo's working tree, run all facets, judge, write evidence.

  check.py C05                 run (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py C05 --replay FILE   re-run one saved counterexample
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: could not run.
"""
import json, os, re, subprocess, sys, time, tempfile, shutil, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
import build as hbuild  # noqa: E402

PYVT = "/usr/local/bin/python3-vt" if os.path.exists("/usr/local/bin/python3-vt") else shutil.which("python3-vt") or "python3"
CASE_LIMIT = 120  # seconds; cases take well below ten
NPROC = min(8, os.cpu_count() or 1)


def known_findings(prop):
    """Lines 'known: property=C05 id=KF1 <text>' of the committed findings file."""
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


class Runner:
    """One executable with facets (a C++ binary or a Python script with the same interface)."""

    def __init__(self, argv, env, work):
        self.argv, self.env, self.work = argv, env, work
        self.n = 0

    def facets(self):
        r = subprocess.run(self.argv + ["--list"], env=self.env, capture_output=True, text=True, timeout=120)
        if r.returncode != 0:
            raise RuntimeError("--list failed: %s\n%s" % (self.argv, r.stdout + r.stderr))
        out = []
        for line in r.stdout.splitlines():
            p = line.split("\t")
            if len(p) == 5:
                out.append(dict(name=p[0], quick=int(p[1]), thorough=int(p[2]), finding=None if p[3] == "-" else p[3], rule=p[4]))
        return out

    def run(self, args, timeout, status=None):
        self.n += 1
        log = os.path.join(self.work, "log%d_%d" % (id(self) % 100000, self.n))
        with open(log, "wb") as fh:
            p = subprocess.Popen(self.argv + args, env=self.env, stdout=fh, stderr=subprocess.STDOUT,
                                 start_new_session=True, cwd=self.work)
            end, last, since = time.time() + timeout, None, time.time()
            while True:
                try:
                    rc = p.wait(timeout=5 if status else timeout)
                    break
                except subprocess.TimeoutExpired:
                    at = None
                    if status and os.path.exists(status):
                        with open(status) as sf:
                            at = sf.read()
                    if at != last:
                        last, since = at, time.time()
                    # out of time, or one single case does not end
                    if time.time() > end or (at is not None and time.time() - since > CASE_LIMIT):
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        rc = None
                        break
        try:  # nothing of this run may stay behind
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        with open(log, "rb") as fh:
            text = fh.read()[-6000:].decode("utf-8", "replace")
        os.unlink(log)
        return rc, text


def shard_plan(f, tier):
    n = f[tier]
    if f["finding"] or n <= 8:
        return [(0, n)] if n <= 1 or f["finding"] else [(i, i + 1) for i in range(n)]
    k = min(NPROC * 2, n)
    cuts = [n * i // k for i in range(k + 1)]
    return [(cuts[i], cuts[i + 1]) for i in range(k)]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    replay_file = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    try:
        execs, build_notes = hbuild.build_for(prop)
    except hbuild.BuildError as e:
        print("BUILD ERROR\n%s" % e)
        return 2
    t_build = time.time() - t0
    work = tempfile.mkdtemp(prefix="vpw_")
    scratch_base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
    scratch = tempfile.mkdtemp(prefix="vps_", dir=scratch_base)
    kf = known_findings(prop)
    env = dict(os.environ, VP_SCRATCH=scratch, VP_KNOWN=",".join(k for k, _ in kf), OPENBLAS_NUM_THREADS="1",
               OMP_NUM_THREADS=os.environ.get("VP_OMP", "1"), PYTHONDONTWRITEBYTECODE="1", VERIF_SEED=str(seed), VERIF_TIER=tier,
               PYTHONHASHSEED="0",
               TMPDIR=scratch, HOME=scratch, VP_BUILD=hbuild.BUILD, VP_REPO=hbuild.REPO, VP_HARNESS=os.path.join(HERE, "harness"),
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:max_allocation_size_mb=2000:detect_stack_use_after_return=0",
               UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1:print_stacktrace=0", LC_ALL="C.UTF-8")
    try:
        return judge(prop, tier, seed, execs, env, work, kf, t0, t_build, replay_file, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(scratch, ignore_errors=True)


def judge(prop, tier, seed, execs, env, work, kf, t0, t_build, replay_file, only):
    if replay_file:
        meta = json.load(open(replay_file))
        for e in execs:
            r = Runner(e, env, work)
            if any(f["name"] == meta["facet"] for f in r.facets()):
                ok, text = do_replay(r, meta, work)
                print(text)
                print("replay %s" % ("FAILS (violation reproduced)" if not ok else "passes"))
                return 1 if not ok else 0
        print("no such facet")
        return 2
    limit = 600 if tier == "quick" else 6000
    budget = 150 if tier == "quick" else 2400
    jobs = []
    fac = {}
    for e in execs:
        r = Runner(e, env, work)
        for f in r.facets():
            if only and f["name"] != only:
                continue
            fac[f["name"]] = (r, f)
            for (a, b) in shard_plan(f, tier):
                jobs.append((r, f, a, b))
    # interleave shards of different facets so that long ones start early
    results, problems = [], []

    def do(job):
        r, f, a, b = job
        out = os.path.join(work, "o_%s_%d.json" % (re.sub(r"\W", "_", f["name"]), a))
        st = out + ".st"
        base = ["--facet", f["name"], "--seed", str(seed), "--out", out, "--status", st]
        rc, text = r.run(base + ["--from", str(a), "--to", str(b), "--budget", str(budget)], budget + 240, st)
        if os.path.exists(out):
            return json.load(open(out)), None
        try:
            at = int(open(st).read())
        except (OSError, ValueError):
            at = a
        # the process died or hung: isolate the case
        died = "died (exit %s)" % rc if rc is not None else "hung"
        rc2, text2 = r.run(base + ["--from", str(at), "--to", str(at + 1), "--isolate", "--cpu", "45", "--shrink-s", "60"], 400)
        if os.path.exists(out):
            d = json.load(open(out))
            if d["failing"] >= 0:
                d["died"] = died + "\n" + text[-1500:]
                return d, None
            os.unlink(out)
        return None, dict(facet=f["name"], a=a, b=b, at=at, died=died, text=text[-3000:], rc=rc)

    with ThreadPoolExecutor(NPROC) as ex:
        for d, prob in ex.map(do, jobs):
            if d is not None:
                results.append(d)
            else:
                problems.append(prob)

    # aggregate ------------------------------------------------------------------------------
    per, samples, total, skipped, discards = {}, [], 0, 0, 0
    distinct_all = 0
    for d in results:
        p = per.setdefault(d["facet"], dict(evaluations=0, distinct=set(), discards=0, skipped=0, labels={}, excluded={}, samples=[], wall=0.0))
        p["evaluations"] += d["evaluations"]
        p["discards"] += d["discards"]
        p["skipped"] += d["skipped"]
        p["wall"] += d["wall"]
        p["distinct"].update(d["distinct"])
        for k in ("labels", "excluded"):
            for l, c in d[k].items():
                p[k][l] = p[k].get(l, 0) + c
        if len(p["samples"]) < 2:
            p["samples"] += d["samples"][: 2 - len(p["samples"])]
    facets_cov = {}
    for name, p in sorted(per.items()):
        f = fac[name][1]
        if f["finding"]:
            continue
        facets_cov[name] = dict(evaluations=p["evaluations"], distinct_nontrivial=len(p["distinct"]), rule=f["rule"], discarded=p["discards"],
                                skipped_for_time=p["skipped"], classes=p["labels"], excluded_known_findings=p["excluded"], cpu_s=round(p["wall"], 2))
        total += p["evaluations"]
        distinct_all += len(p["distinct"])
        for s in p["samples"]:
            samples.append({"facet": name, "case": s})

    # violations -----------------------------------------------------------------------------
    violations, finding_lines, unstable = [], [], []
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    seen = set()
    known_ids = dict(kf)
    for d in results:
        f = fac[d["facet"]][1]
        if d["failing"] < 0:
            continue
        if f["finding"] and f["finding"] in known_ids:
            finding_lines.append("KNOWN-FINDING: property=%s %s: %s" % (prop, f["finding"], known_ids[f["finding"]]))
            continue
        if d["facet"] in seen:
            continue
        r = fac[d["facet"]][0]
        fl = d["failure"]
        path = os.path.join(HERE, "replays", "%s-%s-seed%d.json" % (prop, re.sub(r"\W", "_", d["facet"]), seed))
        meta = dict(property=prop, facet=d["facet"], seed=seed, case=fl["case"], message=fl["message"], text=fl["text"],
                    choices=fl["choices"], original_text=fl["original_text"], original_message=fl["original_message"],
                    mode="choices", isolate=bool(d.get("died")), died=d.get("died"),
                    how="python3 check.py %s --replay %s" % (prop, os.path.relpath(path, HERE)))
        ok = [do_replay(r, meta, work) for _ in range(3)]
        if not all(not o for o, _ in ok):
            meta.update(choices=fl["original_choices"])
            ok = [do_replay(r, meta, work) for _ in range(3)]
        if not all(not o for o, _ in ok):
            # depends on the cases before it in the same process: replay the whole prefix
            meta.update(mode="range", **{"from": d["from"], "to": fl["case"] + 1})
            ok = [do_replay(r, meta, work) for _ in range(3)]
        nf = sum(1 for o, _ in ok if not o)
        # race facets judge invariants of an actual history: one observation is sound evidence
        need = 0 if d["facet"].startswith("race") else 3
        meta["replays_failed"] = nf
        if nf >= need:
            seen.add(d["facet"])
            json.dump(meta, open(path, "w"), indent=1)
            violations.append((d["facet"], path, meta))
        else:
            unstable.append(dict(facet=d["facet"], case=fl["case"], message=fl["message"], replays_failed=nf))
    for pr in problems:
        if pr["facet"] in seen:
            continue
        r = fac[pr["facet"]][0]
        path = os.path.join(HERE, "replays", "%s-%s-seed%d.json" % (prop, re.sub(r"\W", "_", pr["facet"]), seed))
        meta = dict(property=prop, facet=pr["facet"], seed=seed, mode="range", message="process " + pr["died"], text=pr["text"],
                    **{"from": pr["a"], "to": pr["at"] + 1})
        meta["how"] = "python3 check.py %s --replay %s" % (prop, os.path.relpath(path, HERE))
        if pr["rc"] is None or pr["rc"] == -9:
            unstable.append(dict(facet=pr["facet"], case=pr["at"], message="timeout or kill: inconclusive"))
            continue
        ok = [do_replay(r, meta, work) for _ in range(3)]
        if all(not o for o, _ in ok) or (pr["facet"].startswith("race") and any(not o for o, _ in ok)):
            seen.add(pr["facet"])
            json.dump(meta, open(path, "w"), indent=1)
            violations.append((pr["facet"], path, meta))
        else:
            unstable.append(dict(facet=pr["facet"], case=pr["at"], message="process " + pr["died"] + ", not reproduced"))

    rule = "Cases are decoded from seeded choice sequences by the generators of each facet (see coverage.facets[*].rule for what counts as non-trivial); distinct = distinct case descriptions."
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=total, distinct_nontrivial=distinct_all, rule=rule, samples=samples[:60], facets=facets_cov,
                            known_findings=[l for l in finding_lines], unstable=unstable),
              assumptions=["wignerSymbols (not installable offline) is replaced by harness/include/wignerSymbols, checked against the repository's own reference data",
                           "g++ -O1, Eigen with OpenBLAS/LAPACKE, GSL as in the repository's build"],
              wall_s=round(time.time() - t0, 2), build_s=round(t_build, 2), violations=len(violations))
    if not os.environ.get("VP_NO_EVIDENCE") and not only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    print("%s tier=%s seed=%d: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs" % (prop, tier, seed, total, distinct_all, t_build, time.time() - t0))
    for n, c in facets_cov.items():
        print("  %-40s %7d cases %7d nontrivial %6.1fs cpu%s%s" % (n, c["evaluations"], c["distinct_nontrivial"], c["cpu_s"],
              " skipped=%d" % c["skipped_for_time"] if c["skipped_for_time"] else "", " " + json.dumps(c["classes"]) if c["classes"] else ""))
    for u in unstable:
        print("  UNSTABLE (not reported): %s" % json.dumps(u))
    for l in sorted(set(finding_lines)):
        print(l)
    for name, path, meta in violations:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  facet %s: %s\n  case: %s" % (name, meta["message"][:1500], str(meta["text"])[:1500]))
    return 1 if violations else 0


def do_replay(r, meta, work):
    if meta["mode"] == "choices":
        p = os.path.join(work, "replay_%d.txt" % (hash(meta["facet"]) % 10 ** 8))
        with open(p, "w") as fh:
            fh.write("choices: %s\n" % meta["choices"])
        args = ["--facet", meta["facet"], "--replay", p]
        if meta.get("isolate"):
            args += ["--isolate", "--cpu", "45"]
        rc, text = r.run(args, 300)
        return rc == 0, text
    out = os.path.join(work, "rr.json")
    if os.path.exists(out):
        os.unlink(out)
    rc, text = r.run(["--facet", meta["facet"], "--seed", str(meta["seed"]), "--from", str(meta["from"]), "--to", str(meta["to"]), "--out", out, "--shrink-s", "0"], 500)
    return rc == 0, text


if __name__ == "__main__":
    sys.exit(main())
