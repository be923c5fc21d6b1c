"""C28: calculations which the front end runs through the Python interface.  The real driver, settings and atoms run on stand-in
systems whose energies are an explicit function of all their settings; the reference is a direct enumeration of the requested
steps, symmetry blocks and states."""
import contextlib, io, json, logging, math, os, pickle, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp, guistub  # noqa: E402
guistub.install()
import types  # noqa: E402
sip = types.ModuleType("PyQt5.sip")
sip.isdeleted = lambda o: True
sys.modules["PyQt5.sip"] = sys.modules["sip"] = sip
sys.modules["PyQt5"].sip = sip
import numpy as np  # noqa: E402
from pairinteraction_gui import pipy_thread  # noqa: E402
from pairinteraction_gui.pipy_thread import PipyThread, params_to_settings  # noqa: E402
from pairinteraction_gui.worker import AllQueues  # noqa: E402
logging.disable(logging.CRITICAL)

SPIN = {"Li": 0.5, "Na": 0.5, "K": 0.5, "Rb": 0.5, "Cs": 0.5, "Sr1": 0.0, "Sr3": 1.0}
FIELDS = ["Ex", "Ey", "Ez", "Bx", "By", "Bz"]


# ------------------------------------------------------------- stand-in systems which respect restrictions and momenta
def allowed(self, q):
    return all(lo <= x <= hi for Q, x in zip("NLJM", q) for lo, hi in [self.restrict.get(Q, (-1e9, 1e9))])


def exists(species, q):
    return abs(q[1] - SPIN[species]) <= q[2] <= q[1] + SPIN[species] and (q[2] - q[1] - SPIN[species]) % 1 == 0


def one_states(self):
    return [q for q in sorted(set(guistub.BASIS)) if exists(self.species, q) and allowed(self, q)]


def one_qns(self):
    q = one_states(self)
    k = int(sum(abs(x) for x in self.E + self.B) * 8) % max(1, len(q))
    return q[k:] + q[:k]


def one_energy(species, q, E, B, dia, method):
    return guistub.energy(species, q) + guistub.shift(E, B, q, dia) + (1 / 4096.0 if method == "numerov" else 0)


def in_block(a, b, momenta, sym):
    if momenta is None:
        return True
    M = a[3] + b[3]
    return M in momenta or (sym.get("reflection") is not None and -M in momenta)


def two_pairs(self):
    q = [(a, b) for a in one_states(self.s1) for b in one_states(self.s2) if in_block(a, b, self.momenta, self.sym)]
    k = int(self.angle * 8 + sum(abs(x) for s in (self.s1, self.s2) for x in s.E + s.B) * 8) % max(1, len(q))
    return q[k:] + q[:k]


def tag(distance, angle, order, momenta, sym):
    """Differs for every setting of the pair; sym: name -> stand-in's value."""
    t = (0 if math.isinf(distance) else 1 / distance ** 3) + angle / 16 + order / 256.0
    for i, k in enumerate(("inversion", "permutation", "reflection")):
        t += (i * 2 + 1) * (sym.get(k) or 0) * 2.0 ** -14
    return t + (0 if momenta is None else (3 + sum(momenta)) * 2.0 ** -20)


def count(n):
    if n == 0:
        raise RuntimeError("The basis contains no states.")
    return n


def patch():
    one, two = guistub.SystemOne, guistub.SystemTwo
    one.qns = one_qns
    one.getNumStates = one.getNumBasisvectors = lambda s: count(len(one_states(s)))
    one.getStates = lambda s: [guistub.StateOne(s.species, *q) for q in one_states(s)]
    one.energies = lambda s: [one_energy(s.species, q, s.E, s.B, s.dia, s.cache.method) for q in s.qns()]

    def vec(q, st):
        m = np.zeros((len(st), len(q)))
        pos = {x: i for i, x in enumerate(st)}
        for i, x in enumerate(q):
            m[pos[x], i] = 1
        return m
    one.getBasisvectors = lambda s: vec(s.qns(), one_states(s))
    two.pairs = two_pairs
    two.getNumStates = two.getNumBasisvectors = lambda s: count(len(s.pairs()))
    two.tag = lambda s: tag(s.distance, s.angle, s.order, s.momenta, s.sym)
    two.energies = lambda s: [one_energy(x.species, a, x.E, x.B, x.dia, x.cache.method) + one_energy(y.species, b, y.E, y.B, y.dia, y.cache.method) + s.tag()
                              for x, y in [(s.s1, s.s2)] for a, b in s.pairs()]
    two.getBasisvectors = lambda s: vec(s.pairs(), sorted(s.pairs()))


patch()


# ------------------------------------------------------------- parameters as the window passes them on
def rng(lo, hi):
    return [lo + i for i in range(int(round(hi - lo)) + 1)]


def state(src, species, nmax=6):
    s = SPIN[species]
    l = src.pick(0, 2)
    j = src.of(rng(abs(l - s), l + s))
    return (src.pick(5, nmax), l, float(j), float(src.of(rng(-j, j))))


def gen(src, button=None):
    b = src.pick(0, 3) if button is None else button
    two, p = b in (2, 3), {"button_id": b, "samebasis": b == 3 or (b == 2 and src.flip())}
    sp = src.of(sorted(SPIN) + ["Sr1", "Sr3", "Sr1"])
    for i in {0: (1,), 1: (2,)}.get(b, (1, 2)):
        species = sp if i == 1 or p["samebasis"] or src.flip() else src.of([x for x in sorted(SPIN) if (SPIN[x] + SPIN[sp]) % 1 == 0 or src.chance(1, 4)])
        q = state(src, species)
        if i == 2 and two and species == sp and src.chance(1, 3):
            q = tuple(p[k + "1"] for k in "nljm")
        p.update({"species%d" % i: species, **{"%s%d" % (k, i): v for k, v in zip("nljm", q)}})
    p["deltaESingle"] = src.of([-1.0, 0.5, 3.0])
    p["deltaNSingle"], p["deltaLSingle"] = src.of([-1, 0, 1, 2]), src.of([-1, 0, 1, 1])
    p["deltaJSingle"], p["deltaMSingle"] = src.of([-1, -1, 0, 1]), src.of([-1, -1, 0, 1])
    p["steps"], p["missingCalc"], p["diamagnetism"] = src.pick(1, 4), src.flip(), src.flip()
    p["missingWhittaker"], p["precision"] = not p["missingCalc"], 1e-5
    kind = src.pick(0, 3)
    for k in FIELDS:
        y = k[1] == "y"
        lo = src.of([0.0, 0.5, -1.25, 2.0]) if src.chance(1, 6 if y else 3) else 0.0
        hi = src.of([0.0, 1.5, -2.0, 3.0]) if kind and src.chance(1, 6 if y else 3) else lo
        p["min" + k], p["max" + k] = lo, hi
    if b == 2:
        for k in "NLJM":
            p["delta%sPair" % k] = -1
        p["deltaEPair"] = src.of([-1.0, 0.25, 2.0, 2.0])
        p["exponent"] = src.pick(2, 5)
        p["minR"] = src.of([2.0, 5.5])
        p["maxR"] = p["minR"] if src.chance(1, 3) else src.of([8.0, 12.5])
        for s in ("inv", "per", "ref"):
            for eo in "EO":
                p[s + eo] = src.chance(1, 3)
        p["conserveM"], p["sametrafo"], p["zerotheta"] = src.flip(), src.flip(), src.flip()
        if (SPIN[p["species1"]] + SPIN[p["species2"]]) % 1:  # momenta of pairs have to be integer
            p["conserveM"] = False
        if p["conserveM"] and not p["sametrafo"] and p["deltaMSingle"] < 0 and p["deltaJSingle"] < 0 and p["deltaLSingle"] < 0:
            p["deltaLSingle"] = src.of([0, 1])
    if not (b == 2 and p["exponent"] == 3):
        p["dd"] = p["dq"] = p["qq"] = True
    p["NUM_PROCESSES"] = 1
    return p


def basis(p):
    """All states of the elements in a window around the requested ones; the systems restrict them further."""
    out = set()
    for i in (1, 2):
        if "n%d" % i in p:
            s = SPIN[p["species%d" % i]]
            for n in {p["n%d" % i], 7 if p["deltaNSingle"] == 2 else p["n%d" % i]}:
                for l in range(0, 3 if p["deltaMSingle"] >= 0 or p["deltaLSingle"] >= 0 else p["l%d" % i] + 1):
                    for j in rng(abs(l - s), l + s):
                        for m in rng(-j, j):
                            out.add((n, l, float(j), float(m)))
    return sorted(out)


# ------------------------------------------------------------- reference
class Plan:
    """What has to be calculated, derived from the parameters only."""

    def __init__(self, p):
        self.p, b = p, p["button_id"]
        self.two, self.same = b == 2, bool(p["samebasis"])
        self.keys = [k for k in FIELDS + (["R"] if self.two else [])]
        const = all(p["min" + k] == p["max" + k] for k in self.keys)
        self.steps = 1 if const else p["steps"]
        self.atoms = {0: [1], 1: [2], 2: [1, 2], 3: [1, 2]}[b]
        self.method = "numerov" if p["missingCalc"] else "whittaker"
        self.real = all(p[k] == 0 for k in ("minBy", "maxBy", "minEy", "maxEy"))

    def value(self, key, ip):
        lo, hi = self.p["min" + key], self.p["max" + key]
        return lo if self.steps == 1 else lo + (hi - lo) * ip / (self.steps - 1)

    def field(self, ip):
        v = [self.value(k, ip) for k in FIELDS]
        return v[:3], v[3:]

    def qn(self, i):
        return (self.p["n%d" % i], self.p["l%d" % i], self.p["j%d" % i], self.p["m%d" % i])

    def states(self, atom):
        """Basis of one atom: the windows around its state, or around both states if they share the basis."""
        centre = [self.qn(i) for i in (self.atoms if self.same else [atom])]
        out = []
        for q in sorted(set(guistub.BASIS)):
            ok = exists(self.p["species%d" % atom], q)
            for x, Q in enumerate("NLJM"):
                d = self.p["delta%sSingle" % Q]
                if d >= 0 and not min(c[x] for c in centre) - d <= q[x] <= max(c[x] for c in centre) + d:
                    ok = False
            if ok:
                out.append(q)
        return out

    def blocks(self):
        if not self.two:
            return [({}, None)]
        p, out = self.p, []
        a1, a2 = self.states(1), self.states(2)
        one, two = self.qn(1), self.qn(2)
        samestate = one == two and p["species1"] == p["species2"]
        opts = {s: [x for x in "OE" if p[s + x]] or [None] for s in ("inv", "per", "ref")}
        for inv in opts["inv"]:
            for per in opts["per"]:
                for ref in opts["ref"]:
                    if p["sametrafo"]:
                        if samestate and "E" in (inv, per):
                            continue  # antisymmetric: does not contain the state itself
                        if inv and per and (-1) ** (one[1] + two[1]) != (1 if inv == per else -1):
                            continue  # the parity of the state is conserved
                    if not p["conserveM"]:
                        Ms = [None]
                    elif not p["sametrafo"]:
                        Ms = {a[3] + b[3] for a in a1 for b in a2}
                    elif p["zerotheta"]:
                        Ms = {one[3] + two[3]}
                    else:
                        J = one[2] + two[2]
                        Ms = set(rng(-J, J))
                    if ref and Ms != [None]:
                        Ms = {abs(M) for M in Ms}
                    for M in sorted(Ms, key=lambda x: (x is None, x)):
                        out.append(({"inversion": inv, "permutation": per, "reflection": ref}, M))
        return out

    def energies(self, ip, block):
        """State -> energy of the stand-in system, not shifted."""
        sym, M = block
        E, B = self.field(ip)
        dia = self.p["diamagnetism"]
        if not self.two:
            s = self.p["species%d" % self.atoms[0]]
            return {q: one_energy(s, q, E, B, dia, self.method) for q in self.states(self.atoms[0])}
        vals = {k: {None: None, "O": 1, "E": 2}[v] for k, v in sym.items()}
        m = None if M is None else [int(M)]
        t = tag(self.value("R", ip), 0.0, self.p["exponent"], m, vals)
        s1, s2 = self.p["species1"], self.p["species2"]
        return {(a, b): one_energy(s1, a, E, B, dia, self.method) + one_energy(s2, b, E, B, dia, self.method) + t
                for a in self.states(1) for b in self.states(2) if in_block(a, b, m, vals)}

    def zero(self):
        """Reference energy: the field-free states, or for pairs whose energies are restricted the pair at the first step's fields."""
        if not self.two:
            return np.mean([guistub.energy(self.p["species%d" % i], self.qn(i)) for i in self.atoms])
        if self.p["deltaEPair"] < 0:
            return sum(guistub.energy(self.p["species%d" % i], self.qn(i)) for i in (1, 2))
        E, B = self.field(0)
        return sum(one_energy(self.p["species%d" % i], self.qn(i), E, B, self.p["diamagnetism"], self.method) for i in (1, 2))


# ------------------------------------------------------------- running the driver
class Aborted(BaseException):
    pass


def conf(p, cache):
    return dict(p, pathCache=cache, pathConf=os.path.join(cache, "conf.json"))


def run(p, cache, procs=1, mode=None, thread=None):
    """Returns the messages."""
    lines = []

    class Queues:
        def processOneLine(self, line):
            lines.append(line)
    t = thread or (PipyThread(Queues(), pass_atom=mode) if mode else PipyThread(Queues()))
    t.all_queues = Queues()
    t.setParams(conf(p, cache))
    t.setNumProcesses(procs)
    if procs == 1 and t._pool is not None:
        pass
    old = tempfile.tempdir
    tempfile.tempdir = cache
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            t.start()
    finally:
        tempfile.tempdir = old
        if thread is None:
            t.killPool()
    return lines


def fmt(q):
    return [float(x) for x in q]


def verify(plan, lines, when=""):
    """All announced quantities and all results are those of the plan."""
    q = AllQueues()
    with contextlib.redirect_stdout(io.StringIO()):
        for ln in lines:
            vp.check(not q.finishedgracefully, when, "message after the end:", ln)
            q.processOneLine(ln)
    p, b, blocks = plan.p, plan.p["button_id"], plan.blocks()
    vp.check(q.finishedgracefully, when, "the end was not announced")
    vp.check(q._type == b, when, "type", q._type)
    files = q.basisfiles[b % 3]
    vp.check(all(not q.basisfiles[i] for i in range(3) if i != b % 3), when, "basis attributed to another part")
    # blocks: by what was calculated, as the driver may announce blocks without states
    seen, numblocks = {}, None
    while not q.dataqueues[b % 3].empty():
        step, nb, bn, fn = q.dataqueues[b % 3].get()
        vp.check(numblocks in (None, nb), when, "different numbers of blocks are announced")
        numblocks = nb
        vp.check((step, bn) not in seen, when, "step", step, "of block", bn, "is delivered twice")
        vp.check(0 <= step < plan.steps and 0 <= bn < nb, when, "step", step, "block", bn, "of", nb)
        with open(fn, "rb") as fh:
            seen[step, bn] = pickle.load(fh)
    want = [blk for blk in blocks if plan.energies(0, blk)]
    got_bn = sorted({bn for _, bn in seen})
    vp.check(len(got_bn) == len(want), when, len(got_bn), "symmetry blocks with states instead of", len(want), want)
    vp.check(len(seen) == len(want) * plan.steps, when, len(seen), "results instead of", len(want), "blocks x", plan.steps, "steps")
    if numblocks is not None:
        vp.check(q.total == numblocks * plan.steps, when, "announced number of steps", q.total, "blocks", numblocks, "steps", plan.steps)
    vp.check(q.current == len(seen), when, "current step", q.current)
    numbers = sorted(int(ln[5:12]) for ln in lines if ln.startswith(">>OUT"))
    vp.check(numbers == sorted(1 + ip * numblocks + bn for ip, bn in seen), when, "running numbers of the results", numbers)
    table = {}
    for f in files:
        bn = int(f.split("blocknumber_")[1].split(".")[0])
        vp.check(bn not in table, when, "two bases for block", bn)
        table[bn] = np.atleast_2d(np.loadtxt(f))
    vp.check(sorted(table) == got_bn, when, "bases for blocks", sorted(table), "results for", got_bn)
    left = list(want)
    for bn in got_bn:
        par = seen[0, bn]["params"]
        blk = None
        if plan.two:
            full = {"O": "ODD", "E": "EVEN", None: None}
            hit = [x for x in left if all(par["pair." + k] == full[v] for k, v in x[0].items()) and par["pair.momenta"] == (None if x[1] is None else [int(x[1])])]
            vp.check(len(hit) == 1, when, "block", bn, "has symmetries", {k: v for k, v in par.items() if k.startswith("pair.")}, "remaining", left)
            blk = hit[0]
            left.remove(blk)
        else:
            blk = blocks[0]
        rows = [tuple(fmt(r[1:])) for r in table[bn]]
        vp.check([int(r[0]) for r in table[bn]] == list(range(len(rows))), when, "numbers of the basis states")
        rows = [(r[:4], r[4:]) if plan.two else r for r in rows]
        for ip in range(plan.steps):
            w = plan.energies(ip, blk)
            w = {tuple(tuple(fmt(x)) for x in k) if plan.two else tuple(fmt(k)): v for k, v in w.items()}
            d = seen[ip, bn]
            vp.check(sorted(rows) == sorted(w), when, "basis of block", bn, "has", len(rows), "states instead of", len(w))
            vp.check(np.shape(d["basis"]) == (len(rows), len(rows)) and len(d["energies"]) == len(rows), when, "shape of the result", np.shape(d["basis"]), len(d["energies"]), len(rows))
            zero = plan.zero()
            for col in range(len(rows)):
                (k,) = np.nonzero(np.asarray(d["basis"])[:, col])
                vp.check(len(k) == 1, when, "eigenvector", col)
                e = w[rows[k[0]]] - zero
                vp.check(abs(d["energies"][col] - e) < 1e-9, when, "step", ip, "block", bn, blk, "state", rows[k[0]], "energy", d["energies"][col], "instead of", e)
            par = d["params"]
            pre = "atom1."
            E, B = plan.field(ip)
            vp.check(all(abs(par[pre + k] - v) < 1e-12 for k, v in zip(FIELDS, E + B)), when, "fields of the stored parameters", {k: par[pre + k] for k in FIELDS}, "instead of", E, B)
            vp.check(par["isReal"] == plan.real and par["method"] == plan.method.upper() and par["diamagnetism"] == p["diamagnetism"], when, "stored parameters", par)
            if plan.two:
                vp.check(abs(par["pair.distance"] - plan.value("R", ip)) < 1e-12 and par["pair.order"] == p["exponent"], when, "distance", par["pair.distance"])
    return seen


def text(p):
    return json.dumps(p, sort_keys=True)


def size_ok(plan):
    n = len(plan.states(1)) * len(plan.states(2)) if plan.two else 10
    return n and n * max(1, len(plan.blocks())) * plan.steps <= 4000


def case(src, button=None):
    p = gen(src, button)
    guistub.BASIS[:] = basis(p)
    plan = Plan(p)
    if not size_ok(plan):
        raise vp.Discard()
    return p, plan


# ------------------------------------------------------------- facets
@vp.facet("calculations", 3500, 40000, "at least two steps or two symmetry blocks")
def calculations(src):
    p, plan = case(src, src.of([0, 1, 2, 2, 2, 3]))
    vp.note(text(p))
    vp.label(("first atom", "second atom", "pair", "both atoms")[p["button_id"]])
    vp.nontrivial(plan.steps > 1 or len(plan.blocks()) > 1)
    d = vp.fresh_dir()
    given = dict(p)
    lines = run(p, d, mode=src.of([None, "direct", "path&delete"]))
    vp.check(p == given, "the given parameters were modified")
    verify(plan, lines)
    with open(os.path.join(d, "settings.json")) as fh:
        s = json.load(fh)
    vp.check(s["button_id"] == p["button_id"], "stored settings")
    vp.check(not [f for f in os.listdir(d) if f.startswith("atom_")], "left-over files")


@vp.facet("shared-cache", 1000, 12000, "a later calculation uses results of an earlier one")
def shared(src):
    """Several calculations which differ in few parameters, one cache, one driver object."""
    p, plan = case(src, src.of([0, 1, 2, 2, 3]))
    d = vp.fresh_dir()
    thread = PipyThread(None)
    made = 0
    for i in range(src.size(2, 4)):
        vp.note(text(p))
        before = set(os.listdir(d + "/cache_matrix_real_new")) if os.path.isdir(d + "/cache_matrix_real_new") else set()
        verify(plan, run(p, d, thread=thread), "calculation %d:" % i)
        after = set(os.listdir(d + "/cache_matrix_real_new")) if os.path.isdir(d + "/cache_matrix_real_new") else set()
        vp.nontrivial(i > 0 and len(after - before) < 2 * plan.steps * len(plan.blocks()))
        q = dict(p)
        for _ in range(src.of([0, 1, 1, 2])):
            k = src.of(["steps", "missingCalc", "diamagnetism", "field", "deltaEPair", "exponent", "R", "sym", "momenta", "state", "deltaESingle"])
            if k == "steps":
                q[k] = src.pick(1, 4)
            elif k in ("missingCalc", "diamagnetism"):
                q[k] = not q[k]
            elif k == "field":
                f = src.of(FIELDS)
                q["min" + f], q["max" + f] = src.of([(0.0, 0.0), (0.0, 1.5), (0.5, 1.5), (1.5, 0.0)])
            elif k == "deltaESingle":
                q[k] = src.of([-1.0, 0.5, 3.0])
            elif k == "state":
                i2 = src.of(plan.atoms)
                q["m%d" % i2] = -q["m%d" % i2]
            elif q["button_id"] == 2:
                if k == "deltaEPair":
                    q[k] = src.of([-1.0, 0.25, 2.0])
                elif k == "exponent":
                    q[k] = src.pick(2, 5)
                elif k == "R":
                    q["minR"], q["maxR"] = src.of([(2.0, 8.0), (5.5, 5.5), (8.0, 2.0)])
                elif k == "sym":
                    s = src.of(["inv", "per", "ref"]) + src.of("EO")
                    q[s] = not q[s]
                else:
                    s = src.of(["zerotheta", "sametrafo"])
                    q[s] = not q[s]
        if q["button_id"] == 2 and q["conserveM"] and not q["sametrafo"] and max(q["deltaMSingle"], q["deltaJSingle"], q["deltaLSingle"]) < 0:
            q["sametrafo"] = True
        guistub.BASIS[:] = basis(q)
        plan = Plan(q)
        if not size_ok(plan):
            break
        p = q
    thread.killPool()


@vp.facet("interrupted", 1200, 15000, "the interruption took place while results were written")
def interrupted(src):
    """Interruptions while results are written, results which are missing; a later calculation delivers all results."""
    p, plan = case(src, src.of([0, 1, 2, 3]))
    vp.note(text(p))
    d = vp.fresh_dir()
    if src.flip():
        vp.note("complete calculation")
        verify(plan, run(p, d))
    dumps = {"pickle": pickle.dump, "json": json.dump}
    k = 1
    for _ in range(src.size(1, 4)):
        k = src.of([0, 0, 1, 2, 2]) if k else 2
        if k == 0:  # results removed by the user
            ends, often = src.of([(".pkl",), (".json",), (".pkl", ".json")]), src.of([1, 2, 2])
            for r, _, fs in os.walk(d):
                for f in sorted(fs):
                    if "cache_matrix" in r and f.endswith(ends) and src.chance(often, 2):
                        os.remove(os.path.join(r, f))
                        vp.note("removed", "a", f.split(".")[-1])
        elif k == 1:
            vp.note("complete calculation")
            verify(plan, run(p, d))
        else:
            n, part = src.of([1, 1, 2, src.size(1, 2 * plan.steps + 2)]), src.pick(0, 40)
            vp.note("interrupted at write", n, "after", part, "bytes")
            left = [n]

            def wrap(kind):
                def f(obj, fh, *a, **kw):
                    if "settings.json" in getattr(fh, "name", ""):
                        return dumps[kind](obj, fh, *a, **kw)
                    left[0] -= 1
                    if left[0] > 0:
                        return dumps[kind](obj, fh, *a, **kw)
                    s = pickle.dumps(obj) if kind == "pickle" else json.dumps(obj)
                    fh.write(s[:part])
                    fh.flush()
                    vp.nontrivial()
                    raise Aborted()
                return f
            try:
                pickle.dump, json.dump = wrap("pickle"), wrap("json")
                run(p, d)
            except Aborted:
                pass
            finally:
                pickle.dump, json.dump = dumps["pickle"], dumps["json"]
    verify(plan, run(p, d), "at the end:")


@vp.facet("settings", 6000, 80000, "at least two symmetry blocks or two steps")
def settings(src):
    """The settings derived from the window's parameters: every symmetry block once, every step with its parameters."""
    p = gen(src, src.of([0, 1, 2, 2, 2, 2, 3]))
    guistub.BASIS[:] = basis(p)
    plan = Plan(p)
    given = conf(p, "/nowhere")
    vp.note(text(p))
    blocks = plan.blocks()
    vp.nontrivial(len(blocks) > 1 or plan.steps > 1)
    s = params_to_settings(dict(given))
    json.dumps(s)
    so = s["scriptoptions"]
    vp.check(so["numBlocks"] == len(so["symmetries_list"]), "number of blocks", so["numBlocks"])
    if plan.two:
        have = [(x["inversion"], x["permutation"], x["reflection"], None if x["pair.momenta"] is None else float(x["pair.momenta"])) for x in so["symmetries_list"]]
        want = [(x["inversion"], x["permutation"], x["reflection"], M) for x, M in blocks]
        vp.check(len(set(have)) == len(have), "a symmetry block is calculated twice", have)
        vp.check(not set(want) - set(have), "missing symmetry blocks", sorted(set(want) - set(have), key=str), "listed are", have)
        for x in set(have) - set(want):  # only blocks without states
            blk = ({"inversion": x[0], "permutation": x[1], "reflection": x[2]}, x[3])
            vp.check(x[:3] in [w[:3] for w in want] and not plan.energies(0, blk), "superfluous symmetry block", x, "wanted are", want)
    lst = PipyThread.get_param_list(s)
    vp.check(len(lst) == plan.steps, "number of steps", len(lst), "instead of", plan.steps)
    for ip, x in enumerate(lst):
        w = {("distance" if k == "R" else k): plan.value(k, ip) for k in plan.keys}
        vp.check(set(x) == set(w) and all(abs(x[k] - w[k]) < 1e-12 for k in w), "step", ip, x, "instead of", w)
    c = s["config"]
    vp.check(c["nAtoms"] == (2 if plan.two else 1) and bool(c["isReal"]) == plan.real and c["method"] == plan.method.upper() and c["pathCache"] == "/nowhere", "settings", c)
    if p["button_id"] in (0, 1):
        i = plan.atoms[0]
        vp.check(c["species"] == p["species%d" % i] and [c[k] for k in "nljm"] == list(plan.qn(i)), "state of the atom", c)


@vp.facet("processes", 100, 1000, "at least two steps")
def processes(src):
    """Several processes; the number of processes changes between the calculations of one driver object."""
    p, plan = case(src, src.of([0, 1, 2, 3]))
    vp.note(text(p))
    vp.nontrivial(plan.steps > 1)
    d, thread = vp.fresh_dir(), PipyThread(None)
    try:
        for i in range(src.pick(1, 3)):
            n = src.of([1, 2, 3])
            vp.note("processes:", n)
            verify(plan, run(p, d, procs=n, thread=thread), "%d processes:" % n)
            vp.check(thread.num_pr == n, "number of processes")
            vp.check((thread._pool == thread.SEQUENTIAL) == (n == 1) and (n == 1 or thread._pool._processes == n), "requested were", n, "processes, but there is", thread._pool)
            if src.flip():
                d = vp.fresh_dir()
    finally:
        thread.killPool()


@vp.facet("aborted", 500, 6000, "the calculation had started")
def aborted(src):
    """Abort at any message; terminating never fails and afterwards a new calculation delivers everything."""
    p, plan = case(src, src.of([0, 2, 3]))
    vp.note(text(p))
    d = vp.fresh_dir()
    n = src.pick(0, 4 + 2 * plan.steps * max(1, len(plan.blocks())))
    vp.note("abort at message", n)
    seen = [0]
    old, tempfile.tempdir = tempfile.tempdir, d
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            class Queues:
                def processOneLine(self, line):
                    seen[0] += 1
                    if seen[0] == n:
                        raise Aborted()
            t = PipyThread(Queues())
            t.setParams(conf(p, d))
            t.setNumProcesses(1)
            if n:
                try:
                    t.start()
                except Aborted:
                    pass
            vp.nontrivial(seen[0] > 3)
            t.terminate()
            vp.check(t.pool in (t.STOP, t.SEQUENTIAL), "a terminated driver starts new processes")
    finally:
        tempfile.tempdir = old
    verify(plan, run(p, d), "after the abort:")


if __name__ == "__main__":
    sys.exit(vp.main())
