"""Property-based testing engine for the Python parts; same command line, choice sequences, shrinking and
replay format as harness/include/vp_main.cpp."""
import json, math, os, resource, shutil, signal, sys, tempfile, time, traceback

M64 = (1 << 64) - 1


class Failure(Exception):
    pass


class Discard(Exception):
    pass


class Src:
    def __init__(self, seed=None, choices=None):
        self.state, self.choices, self.pos, self.record = seed, choices, 0, []

    def _next(self):
        self.state = (self.state + 0x9E3779B97F4A7C15) & M64
        z = self.state
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
        return z ^ (z >> 31)

    def choice(self, mx):
        if self.choices is not None:
            v = self.choices[self.pos] if self.pos < len(self.choices) else 0
            v = v if v <= mx else v % (mx + 1)
        else:
            v = self._next() % (mx + 1)
        self.pos += 1
        self.record.append(v)
        if len(self.record) > 500000:
            raise Discard()
        return v

    def pick(self, lo, hi):
        return lo + self.choice(hi - lo)

    def flip(self):
        return self.choice(1) == 1

    def chance(self, num, den):
        return self.choice(den - 1) >= den - num

    def of(self, seq):
        return seq[self.choice(len(seq) - 1)]

    def size(self, lo, hi):
        c = self.choice(3)
        h = hi if c in (0, 3) else lo + (hi - lo) // (3 if c == 1 else 10)
        return self.pick(lo, h)

    def real(self, lo, hi):
        return lo + (hi - lo) * (self.choice(1 << 40) / float(1 << 40))

    def sym(self, a):
        x = self.real(0, a)
        return -x if self.flip() else x

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = self.choice(i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


class _Info:
    def __init__(self):
        self.text, self.nontrivial, self.labels, self.excluded = [], False, [], []


_info = _Info()
_facets = []
_scratch = None


def note(*a):
    _info.text.append(" ".join(x if isinstance(x, str) else repr(x) for x in a))


def nontrivial(b=True):
    _info.nontrivial = _info.nontrivial or bool(b)


def label(x):
    _info.labels.append(str(x))


def known(fid):
    if fid in os.environ.get("VP_KNOWN", "").split(","):
        _info.excluded.append(fid)
        return True
    return False


def check(cond, *msg):
    if not cond:
        raise Failure(" ".join(x if isinstance(x, str) else repr(x) for x in msg))


def facet(name, quick, thorough, rule, finding=None):
    def deco(f):
        _facets.append(dict(name=name, quick=quick, thorough=thorough, rule=rule, body=f, finding=finding))
        return f
    return deco


def probe(fid, text):
    return facet("probe-" + fid, 1, 1, text, finding=fid)


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vppy", dir=os.environ.get("VP_SCRATCH", "/tmp"))
    return _scratch


_ndir = 0


def fresh_dir():
    global _ndir
    _ndir += 1
    d = os.path.join(scratch(), "d%d_%d" % (os.getpid(), _ndir))
    os.mkdir(d)
    return d


def _fnv(b, h=0xCBF29CE484222325):
    for c in b:
        h = ((h ^ c) * 0x100000001B3) & M64
    return h


def _run_inproc(f, src):
    global _info
    _info = _Info()
    kind, msg = "pass", ""
    try:
        f["body"](src)
    except Discard:
        kind = "discard"
    except Failure as e:
        kind, msg = "fail", str(e)
    except Exception as e:  # an exception nobody asked for is a failure
        kind, msg = "fail", "unexpected exception %r\n%s" % (e, "".join(traceback.format_tb(e.__traceback__)[-4:]))
    return dict(kind=kind, msg=msg, choices=list(src.record), text="\n".join(_info.text), nontrivial=_info.nontrivial,
                labels=_info.labels, excluded=_info.excluded)


def _run_forked(f, src, cpu):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        signal.alarm(cpu + 20)
        o = _run_inproc(f, src)
        with os.fdopen(w, "w") as fh:
            json.dump(o, fh)
        os._exit(77)
    os.close(w)
    with os.fdopen(r) as fh:
        s = fh.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
        return json.loads(s)
    return dict(kind="fail", msg="case did not finish (limit or crash), status %d" % st, choices=list(src.choices or []), text="", nontrivial=False,
                labels=[], excluded=[])


def _shrink(f, best, run, limit_s):
    t0, tried = time.time(), [0]
    state = dict(best=best, out=None)

    def expired():
        return tried[0] >= 2000 or time.time() - t0 > limit_s

    def attempt(c):
        if expired():
            return False
        tried[0] += 1
        o = run(f, Src(choices=c))
        if o["kind"] == "fail":
            state["out"] = o
            state["best"] = c[: len(o["choices"])] if o["choices"] else c
            return True
        return False

    progress = True
    while progress and not expired():
        progress = False
        k = max(1, len(state["best"]) // 2)
        while k >= 1 and not expired():
            i = 0
            while i + k <= len(state["best"]) and not expired():
                b = state["best"]
                if attempt(b[:i] + b[i + k:]):
                    progress = True
                else:
                    i += k
            k //= 2
        for i in range(len(state["best"])):
            if i >= len(state["best"]) or expired():
                break
            lo, hi = 0, state["best"][i]
            while lo < hi and not expired() and i < len(state["best"]):
                mid = (lo + hi) // 2
                b = state["best"]
                if attempt(b[:i] + [mid] + b[i + 1:]):
                    progress, hi = True, mid
                else:
                    lo = mid + 1
    return state["best"], state["out"], tried[0]


def main():
    opt = dict(facet="", out="", replay="", status="", seed=1, isolate=False, budget=1e9, cpu=120, shrink_s=40.0)
    opt["from"] = opt["to"] = 0
    a, i, ls = sys.argv[1:], 0, False
    while i < len(a):
        k = a[i][2:].replace("-", "_")
        if k == "list":
            ls = True
        elif k == "isolate":
            opt["isolate"] = True
        elif k in opt:
            i += 1
            opt[k] = type(opt[k])(a[i])
        else:
            print("unknown option", a[i])
            return 3
        i += 1
    if ls:
        for f in _facets:
            print("\t".join([f["name"], str(f["quick"]), str(f["thorough"]), f["finding"] or "-", f["rule"]]))
        return 0
    try:
        return _main(opt)
    finally:
        if _scratch:
            shutil.rmtree(_scratch, ignore_errors=True)


def _main(opt):
    f = [x for x in _facets if x["name"] == opt["facet"]]
    if not f:
        print("no such facet")
        return 3
    f = f[0]
    run = (lambda f, s: _run_forked(f, s, opt["cpu"])) if opt["isolate"] else _run_inproc
    if opt["replay"]:
        ch = []
        for line in open(opt["replay"]):
            if line.startswith("choices:"):
                ch = [int(x) for x in line[8:].split()]
        o = run(f, Src(choices=ch))
        print("%s\ncase: %s\nmessage: %s" % (o["kind"].upper(), o["text"], o["msg"]))
        return 1 if o["kind"] == "fail" else 0
    t0 = time.time()
    evals = discards = skipped = 0
    distinct, labels, excluded, samples, failure, failing = set(), {}, {}, [], None, -1
    for i in range(opt["from"], opt["to"]):
        if time.time() - t0 > opt["budget"]:
            skipped = opt["to"] - i
            break
        if opt["status"]:
            with open(opt["status"], "w") as fh:
                fh.write("%d" % i)
        o = run(f, Src(seed=_fnv(("%s#%d#%d" % (f["name"], opt["seed"], i)).encode())))
        if o["kind"] == "discard":
            discards += 1
            continue
        evals += 1
        for l in o["labels"]:
            labels[l] = labels.get(l, 0) + 1
        for l in o["excluded"]:
            excluded[l] = excluded.get(l, 0) + 1
        if o["nontrivial"]:
            h = _fnv(o["text"].encode("utf-8", "replace"))
            if h not in distinct and len(samples) < 2 and len(o["text"]) < 1500:
                samples.append(o["text"])
            distinct.add(h)
        if o["kind"] == "fail":
            failing = i
            again = run(f, Src(choices=list(o["choices"])))
            best, bo, tried = o["choices"], o, 0
            if again["kind"] == "fail":
                best, out, tried = _shrink(f, list(o["choices"]), run, opt["shrink_s"])
                bo = out or again
            failure = {"case": i, "reproduced_in_process": again["kind"] == "fail", "shrink_tried": tried, "message": bo["msg"], "text": bo["text"],
                       "original_message": o["msg"], "original_text": o["text"], "original_choices": " ".join(map(str, o["choices"])),
                       "choices": " ".join(map(str, best))}
            break
    res = {"facet": f["name"], "from": opt["from"], "to": opt["to"], "evaluations": evals, "discards": discards, "skipped": skipped,
           "failing": failing, "wall": time.time() - t0, "distinct": sorted(distinct), "labels": labels, "excluded": excluded,
           "samples": samples, "failure": failure}
    with open(opt["out"] + ".tmp", "w") as fh:
        json.dump(res, fh)
    os.rename(opt["out"] + ".tmp", opt["out"])
    return 1 if failing >= 0 else 0
