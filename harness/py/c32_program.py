"""C32: the command-line program as its users see it: its options, and its output as read by the front end."""
import contextlib, io, json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vp, guistub  # noqa: E402
guistub.install()
import types  # noqa: E402


class _Signal:
    def __init__(self, *t):
        pass


sys.modules["PyQt5.QtCore"].pyqtSignal = _Signal
sip = types.ModuleType("PyQt5.sip")
sip.isdeleted = lambda o: True
sys.modules["PyQt5.sip"] = sys.modules["sip"] = sip
sys.modules["PyQt5"].sip = sip
import numpy as np  # noqa: E402
from pairinteraction_gui.worker import AllQueues  # noqa: E402
from pairinteraction_gui.loader import Eigensystem  # noqa: E402

EXE = os.path.join(os.environ.get("VP_BUILD") or os.path.join(HERE, "..", "..", "build"), "bin", "pipeline_driver")


def printable(body):  # names of files need not be valid text
    def f(src):
        try:
            body(src)
        except vp.Failure as e:
            raise vp.Failure(ascii(str(e)))
    return f


FIELDS = ["Ex", "Ey", "Ez", "Bx", "By", "Bz"]


def start(args, cwd, tmp, threads=1, merge=False):
    env = {"PATH": "/usr/bin:/bin", "TMPDIR": tmp, "HOME": cwd, "OMP_NUM_THREADS": str(threads), "OMP_WAIT_POLICY": "passive"}
    if not os.access(EXE, os.X_OK):
        raise RuntimeError("harness: pipeline_driver is missing")
    try:
        return subprocess.run([EXE] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT if merge else subprocess.PIPE, timeout=100)
    except subprocess.TimeoutExpired:
        raise vp.Failure("the program does not end within 100 s: %r" % (args,))


def num(x):
    return repr(float(x))


def atom(src, c, i, species, n):
    l = src.choice(2)
    j = l + 0.5 if l == 0 or src.flip() else l - 0.5
    c["species" + i], c["n" + i], c["l" + i], c["j" + i] = species, str(n), str(l), num(j)
    c["m" + i] = num(src.pick(0, int(2 * j)) - j)


def small():
    c = {"species1": "Rb", "n1": "20", "l1": "0", "j1": "0.5", "m1": "0.5", "samebasis": "false", "steps": "1", "missingCalc": "true",
         "missingWhittaker": "false", "diamagnetism": "false", "deltaNSingle": "0", "deltaLSingle": "0", "deltaJSingle": "-1",
         "deltaMSingle": "-1", "deltaESingle": "-1"}
    for f in FIELDS:
        c["min" + f] = c["max" + f] = "0"
    return c


def config(src):
    """A calculation of the kinds the front end starts; returns (settings, complex, kind)."""
    c = small()
    sp = src.of(["Rb", "Cs", "Li", "Na", "K"])
    n = src.pick(15, 30)
    atom(src, c, "1", sp, n)
    kind = src.of(["one", "one", "two", "both", "pair", "pair", "samepair", "samepair"])
    if kind != "one":
        atom(src, c, "2", sp if kind in ("both", "samepair") or src.flip() else src.of(["Rb", "Cs", "K"]), n + src.choice(1))
    c["samebasis"] = "true" if kind in ("both", "samepair") else "false"
    if src.chance(1, 4):
        c["missingCalc"], c["missingWhittaker"] = "false", "true"
    c["deltaLSingle"] = str(src.of([1, 1, 0]))
    c["deltaNSingle"] = str(src.choice(1)) if "pair" not in kind else "0"
    c["deltaJSingle"] = src.of(["-1", "1", "0"])
    c["deltaMSingle"] = src.of(["-1", "1", "0"])
    c["deltaESingle"] = src.of(["-1", "300", "1000"])
    c["steps"] = str(src.pick(1, 5))
    c["diamagnetism"] = "true" if src.flip() else "false"
    cplx = src.flip()
    scan = src.choice(2)  # without fields, constant fields, scanned fields
    if scan:
        for f in FIELDS:
            if ("y" in f and not cplx) or src.chance(1, 2):
                continue
            lo = src.real(0.1, 2) if f[0] == "E" else src.real(1, 200)
            c["min" + f] = num(lo)
            c["max" + f] = num(lo if scan == 1 or src.flip() else lo + (src.real(0.1, 2) if f[0] == "E" else src.real(1, 200)))
    if "pair" in kind:
        for k in ["deltaNPair", "deltaLPair", "deltaJPair", "deltaMPair"]:
            c[k] = "-1"
        c["deltaEPair"] = src.of(["-1", "50", "500"])
        c["exponent"] = src.of(["3", "3", "4", "5"])
        for k in ["conserveM", "sametrafo", "invE", "invO", "perE", "perO", "refE", "refO"]:
            c[k] = "false"
        c["zerotheta"] = "true"
        if kind == "samepair" and not scan and src.flip():
            c["invE"] = c["invO"] = "true"
        if kind == "samepair" and not scan and c["exponent"] == "3" and src.flip():
            c["perE"] = c["perO"] = "true"
        if not scan and src.flip():
            c["conserveM"] = "true"
        r = src.real(2, 10)
        c["minR"] = num(r)
        c["maxR"] = num(r if src.flip() else src.real(2, 10))
    return c, cplx, kind


def write(path, c):
    with open(path, "w") as f:
        json.dump(c, f)


def tree(d):
    out = []
    for root, dirs, files in os.walk(d):
        out += [os.path.relpath(os.path.join(root, x), d) for x in dirs + files]
    return sorted(out)


@vp.facet("options", 1000, 8000, "more than one option on the command line")
@printable
def options(src):
    base = vp.fresh_dir()
    cwd, tmp = os.path.join(base, "cwd"), os.path.join(base, "tmp")
    os.mkdir(cwd), os.mkdir(tmp)
    outs = [os.path.join(base, x) for x in ("out0", "out1", "-t")]
    for o in outs:
        os.mkdir(o)
    good = [os.path.join(base, "conf.json"), os.path.join(base, "two words.json"), os.path.join(cwd, "-c")]
    conf = small()
    for i, g in enumerate(good):
        conf["n1"] = str(20 + i)
        write(g, conf)
    good[2] = "-c"  # names of files that look like options, relative to the working directory
    items = []
    pool = ["c", "o", "t"] + [src.of("cot") for _ in range(src.choice(2))]
    if src.chance(1, 4):
        pool.pop(src.choice(2))
    for k in src.shuffle(pool):
        if k == "c":
            v = src.of(good + good + [os.path.join(base, "none.json"), "", base])
        elif k == "o":
            v = src.of(outs + outs[:2] + [""])
        else:
            v = src.of(["real", "complex", "real", "complex", "Real", "double", "", "-c"])
        items.append([src.of({"c": ["-c", "--config"], "o": ["-o", "--output"], "t": ["-t", "--type"]}[k]), v])
    if src.chance(1, 8):
        items.insert(src.choice(len(items)), [src.of(["-?", "--help"])])
    if src.chance(1, 8):
        items.insert(src.choice(len(items)), [src.of(["-h", "--conf", "x", "", "--type=real", "-creal", "--", "-"])])
    args = [a for i in items for a in i]
    if src.chance(1, 8):
        args = args[:-1]
    if src.chance(1, 16):
        args = []
    # the documented meaning: options from left to right, the last one counts
    val, want, i = {}, None, 0
    if not args:
        want = "help"
    while want is None and i < len(args):
        a = args[i]
        key = {"-c": "c", "--config": "c", "-o": "o", "--output": "o", "-t": "t", "--type": "t"}.get(a)
        if a in ("-?", "--help"):
            want = "help"
        elif key is None:
            want = "unknown"
        elif i + 1 >= len(args):
            want = "argument"
        else:
            val[key] = args[i + 1]
            i += 1
        i += 1
    if want is None:
        missing = [k for k in "cot" if not val.get(k)]
        want = "required" if missing else "type" if val["t"] not in ("real", "complex") else "config" if val["c"] not in good else "run"
    vp.note([os.fsencode(x) for x in args], "->", want)
    vp.label(want)
    before = tree(base)
    p = start(args, cwd, tmp)
    out, err = p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    new = [x for x in tree(base) if x not in before]
    vp.nontrivial(len(args) > 2)
    if want == "run":
        vp.check(p.returncode == 0 and ">>END" in out.split("\n"), "a complete command line is not carried out:", p.returncode, out[-300:], err[-300:])
        o = os.path.relpath(val["o"], base)
        res = [x for x in new if x.endswith(".mat")]
        vp.check(len(res) == 1, "results", res)
        vp.check(all(x.startswith((o + os.sep, "tmp" + os.sep)) for x in new), "files outside of the given directory", o, new)
        e = Eigensystem(os.path.join(base, res[0])[:-4])
        vp.check(e.params["n1"] == str(20 + good.index(val["c"])), "the calculation is not the one of the given file", val["c"], e.params["n1"])
        vp.check(e.basis.dtype.kind == ("c" if val["t"] == "complex" else "f"), "type of the results", e.basis.dtype, val["t"])
    else:
        vp.check(not [x for x in new if not x.startswith("tmp" + os.sep)] and (want == "config" or not new), "files of a refused command line:", new)
        vp.check(">>END" not in out and ">>OUT" not in out, "results of a refused command line:", out[-300:])
        if want == "help":
            vp.check(p.returncode == 0, "the request for help ends with", p.returncode, err[-300:])
            vp.check(all(x in out for x in ["--help", "--config", "--output", "--type"]) and not err, "help", out, err)
        else:
            vp.check(p.returncode != 0, "an error ends with the status of success", out, err)
            vp.check(err.strip(), "an error without any message")
            if want == "unknown" or want == "argument":
                vp.check(a in err, "the message does not name the option", a, err)
            if want == "type":
                vp.check(val["t"] in err and "real" in err and "complex" in err, "the message does not name the type", val["t"], err)
            if want == "required":
                vp.check(any({"c": "--config", "o": "--output", "t": "--type"}[k] in err for k in missing), "the message does not name a missing option", missing, err)


NAMES = ["plain", "two words", "a  b", " lead", "ümläut-µ", "日本", "tab\there", "x" * 60, "100%s", "q'uote\"d", "back\\slash", "-t", "dot.s", "a;b&c$HOME", ">>OUT", "{}"]


def name(src):
    return src.of(NAMES) if src.chance(3, 4) else os.fsdecode(bytes(src.of([0x80, 0xff, 0xe4, 0x41]) for _ in range(3)))


def run(src, c, cplx, cfg, out, cwd, tmp, threads):
    args = [["-c", cfg], ["-o", out], ["-t", "complex" if cplx else "real"]]
    long = {"-c": "--config", "-o": "--output", "-t": "--type"}
    if src is not None:
        args = src.shuffle([[long[k] if src.flip() else k, v] for k, v in args])
    return start([a for x in args for a in x], cwd, tmp, threads, merge=True)


def read(p):
    """The output in the hands of the front end, the lines as Worker.run gets them."""
    vp.check(p.returncode == 0, "the calculation ends with", p.returncode, p.stdout[-600:].decode("utf-8", "replace"))
    q = AllQueues()
    errors, text = [], io.StringIO()
    q.error_handler = errors.append
    lines = io.BytesIO(p.stdout)
    totals, seen, types_ = {}, {}, []
    with contextlib.redirect_stdout(text):
        for line in iter(lines.readline, b""):
            vp.check(not q.finishedgracefully, "output after the end:", line)
            q.processOneLine(line)
            if line.startswith(b">>TYP"):
                types_.append(q._type)
                seen[q._type % 3] = 0
            elif line.startswith(b">>TOT"):
                totals[q._type % 3] = q.total
            elif line.startswith(b">>OUT"):
                seen[q._type % 3] += 1
                vp.check(0 <= q.current <= q.total, "progress:", q.message)
    vp.check(q.finishedgracefully, "the front end does not notice the end of the calculation")
    vp.check(not errors, "errors are shown:", errors)
    data = []
    for t in range(3):
        d = []
        while not q.dataqueues[t].empty():
            d.append(q.dataqueues[t].get())
        data.append(d)
        vp.check(len(d) == seen.get(t, 0) == totals.get(t, 0), "results", len(d), "announced", totals.get(t), "in section", t)
    return q, data, types_, text.getvalue()


def results(c, data, types_, basisfiles):
    steps = int(c["steps"])
    constant = all(float(c["min" + f]) == float(c["max" + f]) for f in FIELDS)
    res = []
    for t in range(3):
        ids = [(s, b) for s, n, b, f in data[t]]
        vp.check(len(set(ids)) == len(ids), "a result is announced twice", ids)
        if not data[t]:
            if basisfiles[t]:  # nothing to calculate: no state within the limits
                vp.check([os.path.getsize(f) for f in basisfiles[t]] == [0], "a basis without results in section", t)
            continue
        nb = {n for s, n, b, f in data[t]}
        vp.check(len(nb) == 1, "numbers of blocks", nb)
        want = 1 if constant and (t != 2 or float(c["minR"]) == float(c["maxR"])) else steps
        vp.check(set(ids) == {(s, b) for s in range(want) for b in range(min(nb))}, "section", t, "delivers", sorted(ids), "for", want, "steps with", nb, "blocks")
        vp.check(len(basisfiles[t]) == min(nb) or len(basisfiles[t]) == 1, "section", t, "has", len(basisfiles[t]), "lists of states")
        states = []
        for f in basisfiles[t]:
            vp.check(os.path.isfile(f), "the list of states does not exist:", f)
            with open(f) as fh:
                states.append([x.split() for x in fh if x.strip()])
        for s, n, b, f in data[t]:
            vp.check(os.path.isabs(f) and os.path.isfile(f + ".mat") and os.path.isfile(f + ".json"), "result files do not exist:", f)
            e = Eigensystem(f)
            E, B, P = e.energies, e.basis, e.params
            vp.check(B.shape[1] == len(E) and B.shape[0] == len(states[0]), "step", s, "block", b, "has", len(E), "energies and vectors", B.shape, "of", len(states[0]), "states")
            # a single atom is the first of its files; the atoms of a common basis are not ordered
            both, common = t == 2 or 3 in types_, c["samebasis"] == "true"
            stored = [[float(P[k + i]) for k in "nljm"] for i in ("12" if both else "1")]
            asked = [[float(c[k + i]) for k in "nljm"] for i in ("12" if both else "2" if t == 1 else "1")]
            vp.check(sorted(stored) == sorted(asked) if common else stored == asked, "the stored states are", stored, "instead of", asked, "in section", t)
            vp.check(P["species1"] == c["species2" if t == 1 else "species1"] and (t != 2 or P["species2"] == c["species2"]), "stored species in section", t, P)
            pos = s / (want - 1) if want > 1 else 0
            if t != 2:
                for fl in FIELDS:
                    v = float(c["min" + fl]) + pos * (float(c["max" + fl]) - float(c["min" + fl]))
                    vp.check(abs(float(P[fl]) - v) <= 1e-9 * (1 + abs(v)), "stored", fl, P[fl], "in step", s, "instead of", v)
            else:
                v = float(c["minR"]) + pos * (float(c["maxR"]) - float(c["minR"]))
                vp.check(abs(float(P["R"]) - v) <= 1e-9 * v, "stored distance", P["R"], "in step", s, "instead of", v)
            res.append(((t, s, b), np.sort(E), B.shape, len(states[0])))
    return sorted(res, key=lambda x: x[0])


@vp.facet("calculations read by the front end", 400, 4000, "more than one result")
@printable
def end_to_end(src):
    c, cplx, kind = config(src)
    base = vp.fresh_dir()
    d = [os.path.join(base, "%d" % i + name(src)) for i in range(4)]
    for x in d:
        os.mkdir(x)
    if src.flip():
        d[0] = os.path.join(d[0], "deeper")
        os.mkdir(d[0])
    cfg, out, tmp, cwd = os.path.join(d[0], name(src)), os.path.join(d[1], name(src)), d[2], d[3]
    os.mkdir(out)
    results_below = out + os.sep
    write(cfg, c)
    threads = src.pick(1, 8)
    if src.flip():
        cfg = os.path.relpath(cfg, cwd)
    if src.flip():
        out = os.path.relpath(out, cwd)
    if src.chance(1, 4):
        out += "/"
    vp.note(kind, "complex" if cplx else "real", "%d threads" % threads, [os.fsencode(x) for x in (cfg, out, tmp, cwd)], {k: v for k, v in c.items() if v not in ("0", "false")})
    vp.label(kind)
    q, data, types_, text = read(run(src, c, cplx, cfg, out, cwd, tmp, threads))
    want = {"one": [0], "two": [0, 1], "both": [3], "pair": [0, 1, 2], "samepair": [3, 2]}[kind]
    vp.check(types_ == want, "sections", types_, "instead of", want)
    vp.check(all(os.path.normpath(x[3]).startswith(results_below) for y in data for x in y), "results outside of the given directory", results_below, data)
    got = results(c, data, types_, q.basisfiles)
    vp.nontrivial(len(got) > 1)
    # the same calculation again: from the stored results
    q2, data2, types2, _ = read(run(src, c, cplx, cfg, out, cwd, tmp, src.pick(1, 8)))
    vp.check(types2 == types_ and [sorted(x) for x in data2] == [sorted(x) for x in data], "the repeated calculation announces", data2, "instead of", data)
    again = results(c, data2, types2, q2.basisfiles)
    vp.check(all(a[0] == b[0] and np.array_equal(a[1], b[1]) for a, b in zip(got, again)), "the repeated calculation has other energies")
    # and with plain names, one thread and the canonical command line
    p = os.path.join(base, "ref")
    for x in ("", "/out", "/tmp", "/cwd"):
        os.mkdir(p + x)
    write(p + "/conf.json", c)
    q3, data3, types3, _ = read(run(None, c, cplx, p + "/conf.json", p + "/out", p + "/cwd", p + "/tmp", 1))
    ref = results(c, data3, types3, q3.basisfiles)
    vp.check([x[0] for x in ref] == [x[0] for x in got] and [x[2:] for x in ref] == [x[2:] for x in got], "results", [x[0] for x in got], "instead of", [x[0] for x in ref])
    for a, b in zip(got, ref):
        if len(a[1]):
            vp.check(np.max(np.abs(a[1] - b[1])) <= 1e-7 * (1 + np.max(np.abs(b[1]))), "energies of", a[0], "depend on names of files or on threads:", a[1], b[1])


if __name__ == "__main__":
    sys.exit(vp.main())
