"""C24: front-end settings resolve as documented, whatever the spelling, nesting, key order or order of queries."""
import logging, math, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp, guistub  # noqa: E402
guistub.install()
import numpy as np  # noqa: E402
from pairinteraction_gui.pipy import Config, AtomOne, AtomTwo, atom_from_config  # noqa: E402
from pairinteraction_gui.pipy.misc import CustomDict  # noqa: E402
logging.disable(logging.CRITICAL)
SPECIES = ["Rb", "Cs", "Na", "Sr1", "Li"]
INF = float("inf")


# ---------------------------------------------------------------- reference model
class Ref:
    """Effective settings of a flat dictionary, from the documentation alone."""

    def __init__(self, d):
        self.d = d

    def single(self, key, p, default=None):
        for k in ("atom%d.%s" % (p, key), "%s%d" % (key, p), "atom.%s" % key, key):
            if k in self.d:
                return self.d[k]
        return default

    def pair(self, key, default=None):
        for k in ("pair." + key, key):
            if k in self.d:
                return self.d[k]
        return default

    def syn(self, keys, p, default=None):
        for k in keys:
            v = self.pair(k, INF) if p == "pair" else self.single(k, p, INF)
            if not (isinstance(v, float) and v == INF):
                return v
        return default

    def same(self):
        return self.d.get("useSameAtom", self.d.get("samebasis", False))

    def natoms(self):
        if "nAtoms" in self.d:
            return self.d["nAtoms"]
        return 2 if self.same() or any(k in self.d for k in ("species2", "atom2.species")) else 1

    def species(self, p):
        return self.single("species", p)

    def field(self, f, p):
        v = self.single(f + "field", p)
        return list(v) if v is not None else [self.single(f + x, p, 0) for x in "xyz"]

    def real1(self, p):
        r = self.single("isReal", p)
        return r if r is not None else self.field("E", p)[1] == 0 and self.field("B", p)[1] == 0

    def real(self):
        return self.real1(1) if self.natoms() == 1 else self.real1(1) and self.real1(2)

    def own(self, p):
        v = self.single("qnumbers", p)
        if v is None:
            v = [tuple(self.single(q, p) for q in "nljm")]
        elif np.ndim(v) == 1:
            v = [v]
        return [(int(n), int(l), float(j), float(m)) for n, l, j, m in v]

    def qn(self, p):
        return self.own(1) + self.own(2) if p == 1 and self.same() else self.own(p)

    def qnpair(self):
        v = self.pair("qnumbers")
        if v is not None:
            if np.ndim(v) == 1:
                v = [v]
            out = []
            for row in v:
                if np.shape(row) == (8,):
                    out.append(tuple(row))
                elif np.shape(row) == (4, 2):
                    out.append(tuple(row[i][0] for i in range(4)) + tuple(row[i][1] for i in range(4)))
                else:
                    out.append(tuple(row[0]) + tuple(row[1]))
            return [tuple((int, int, float, float)[i % 4](x) for i, x in enumerate(r)) for r in out]
        a = self.qn(1)
        if self.pair("useQnumbersSingleAsPair", False):
            b = list(a) + ([] if self.same() else self.qn(2))
            return [b[0] + b[1]]
        if self.same():
            return [x + y for i, x in enumerate(self.own(1)) for y in self.own(2)[i:]]  # unordered pairs
        return [x + y for x in a for y in self.qn(2)]

    def conserve(self, p):
        g = self.pair if p == "pair" else lambda k, d=None: self.single(k, p, d)
        return g("conserveMomenta", g("momenta") is not None)

    def momenta(self, p):
        v = self.pair("momenta") if p == "pair" else self.single("momenta", p)
        if v is None:
            if not self.conserve(p):
                return None
            ms = {q[3] + q[7] for q in self.qnpair()} if p == "pair" else {q[3] for q in self.qn(p)}
            if len(ms) > 1:
                return "ValueError"
            v = list(ms)
        elif isinstance(v, (int, float)):
            v = [v]
        return [int(x) if p == "pair" else float(x) for x in v]

    def dq(self, Q, p):
        suffix = "Pair" if p == "pair" else "Single"
        d = self.syn(["d" + Q, "delta" + Q, "d" + Q + suffix, "delta" + Q + suffix] + (["deltaE" + suffix] if Q == "Energy" else []), p)
        return None if d is None or d < 0 else d

    def energies(self, p):
        if p == "pair":
            return [self.e(1, q[:4]) + self.e(2, q[4:]) for q in self.qnpair()]
        return [self.e(p, q) for q in self.qn(p)]

    def e(self, p, q):
        return guistub.energy(self.species(1 if self.same() else p), q)

    def restrict(self, Q, p, values=None):
        g = self.pair if p == "pair" else lambda k: self.single(k, p)
        lo, hi, d = g("min" + Q), g("max" + Q), self.dq(Q, p)
        if lo is None or hi is None:
            if d is None:
                return (None, None)
            if values is None:
                if Q == "Energy":
                    values = self.energies(p)
                else:
                    i = "NLJM".index(Q)
                    values = [x[i] + x[i + 4] for x in self.qnpair()] if p == "pair" else [x[i] for x in self.qn(p)]
            lo, hi = min(values) - d, max(values) + d
        t = int if Q in "NL" or (p == "pair" and Q in "JM") else float
        return (t(lo), t(hi))

    def sym(self, s):
        v = self.pair(s, self.pair(s[:3]))
        return None if v is None or v.upper() == "NONE" else {"O": "ODD", "E": "EVEN"}[v.upper()[0]]

    def getters(self, energies_pair=False):
        """Name -> expected value of everything that can be asked of a configuration."""
        d, out = self.d, {}
        two = self.natoms() == 2
        out["nAtoms()"], out["useSameAtom()"], out["isReal()"] = self.natoms(), self.same(), self.real()
        out["pathCache()"], out["method()"] = d.get("pathCache", "./cache/"), d.get("method", "NUMEROV").upper()
        out["diagonalizeThreshold()"], out["diamagnetism()"] = d.get("diagonalizeThreshold", 1e-10), d.get("diamagnetism", False)
        for p in ((1, 2) if two and not self.same() else (1,)):
            for a in ([str(p)] if two else ["", "1"]):
                out["species(%s)" % a] = self.species(p)
                out["isRealSingle(%s)" % a] = self.real1(p)
                for f in "EB":
                    v = self.field(f, p)
                    out["%sfield(%s)" % (f, a)] = v
                    for i, x in enumerate("xyz"):
                        out["%s%s(%s)" % (f, x, a)] = v[i]
                out["qnumbersSingle(%s)" % a] = self.qn(p)
                out["conserveMomentaSingle(%s)" % a] = self.conserve(p)
                out["momentaSingle(%s)" % a] = self.momenta(p)
                out["getEnergiesSingle(%s)" % a] = self.energies(p)
                for Q in ("Energy", "N", "L", "J", "M"):
                    out["restrictQnSingle(%r%s)" % (Q, a and ", " + a)] = self.restrict(Q, p)
                out["restrictEnergySingle(%s)" % a] = self.restrict("Energy", p)
        if two:
            out["order()"], out["minimalNorm()"] = self.pair("order", self.pair("exponent", 3)), self.pair("minimalNorm", 5e-2)
            out["angle()"], out["distance()"] = self.pair("angle", self.pair("theta", 0)), self.pair("distance", self.pair("R", INF))
            for s in ("inversion", "permutation", "reflection"):
                out[s + "()"] = out["symmetry(%r)" % s] = self.sym(s)
            out["useQnumbersSingleAsPair()"] = self.pair("useQnumbersSingleAsPair", False)
            out["qnumbersPair()"], out["conserveMomentaPair()"], out["momentaPair()"] = self.qnpair(), self.conserve("pair"), self.momenta("pair")
            for Q in ("N", "L", "J", "M"):
                out["restrictQnPair(%r)" % Q] = self.restrict(Q, "pair")
            if self.dq("Energy", "pair") is None or (self.pair("minEnergy") is not None and self.pair("maxEnergy") is not None):
                out["restrictQnPair('Energy')"] = out["restrictEnergyPair()"] = self.restrict("Energy", "pair")
        return out

    def outdict(self):
        """Effective parameters as a flat dictionary, without derived energies; None if it cannot be formed."""
        two, same = self.natoms() == 2, self.same()
        out = {"nAtoms": self.natoms(), "isReal": self.real(), "useSameAtom": same, "method": self.d.get("method", "NUMEROV").upper(),
               "pathCache": self.d.get("pathCache", "./cache/"), "diagonalizeThreshold": self.d.get("diagonalizeThreshold", 1e-10),
               "diamagnetism": self.d.get("diamagnetism", False)}
        for p in ((1, 2) if two and not same else (1,)):
            a = "atom%d." % p
            out[a + "species"], out[a + "momenta"] = self.species(p), self.momenta(p) if self.conserve(p) else None
            for Q in ("Energy", "N", "L", "J", "M"):
                out[a + "min" + Q], out[a + "max" + Q] = self.restrict(Q, p)
            for f in "EB":
                for x, v in zip("xyz", self.field(f, p)):
                    out[a + f + x] = v
        if two:
            out.update({"pair.order": self.pair("order", self.pair("exponent", 3)), "pair.minimalNorm": self.pair("minimalNorm", 5e-2),
                        "pair.momenta": self.momenta("pair") if self.conserve("pair") else None, "pair.angle": self.pair("angle", self.pair("theta", 0)),
                        "pair.distance": self.pair("distance", self.pair("R", INF))})
            for s in ("inversion", "permutation", "reflection"):
                out["pair." + s] = self.sym(s)
            if self.dq("Energy", "pair") is not None and (self.pair("minEnergy") is None or self.pair("maxEnergy") is None):
                return None  # needs the energies of the atoms
            out["pair.minEnergy"], out["pair.maxEnergy"] = self.restrict("Energy", "pair")
        return None if "ValueError" in [x for x in out.values() if isinstance(x, str)] else out


# ---------------------------------------------------------------- generator
def halves(src, lo, hi):
    return src.pick(2 * lo, 2 * hi) / 2.0


def qn(src):
    l = src.pick(0, 3)
    j = l + 0.5 if l == 0 or src.flip() else l - 0.5
    return (src.pick(5, 9), l, j, -j + src.pick(0, int(2 * j)))


def put(src, d, key, value, parts, general=True, full=True):
    """Stores value() for some of the equally valid ways to give a one-atom key, with decoys that are overridden."""
    n = 0
    for p in parts:
        if full and src.chance(1, 4):
            d["atom%d.%s" % (p, key)] = value()
            n += 1
        if src.chance(1, 4):
            d["%s%d" % (key, p)] = value()
            n += 1
    if src.chance(1, 3):
        d["atom." + key] = value()
        n += 1
    if general and src.chance(1, 3):
        d[key] = value()
        n += 1
    return n


def putpair(src, d, key, value, general=True):
    if src.chance(1, 2):
        d["pair." + key] = value()
    if general and src.chance(1, 3):
        d[key] = value()


def gen(src, energies=True):
    d, two = {}, src.chance(2, 3)
    parts = (1, 2) if two else (1,)
    same = two and src.chance(1, 4)
    if same:
        d[src.of(["useSameAtom", "samebasis"])] = True
    elif src.chance(1, 6):
        d[src.of(["useSameAtom", "samebasis"])] = False
    if same and src.flip():
        d["useSameAtom"] = True
    # species: complete for all atoms
    if same:
        d[src.of(["species", "atom.species"])] = src.of(SPECIES)
    else:
        put(src, d, "species", lambda: src.of(SPECIES), parts)
        for p in parts:
            if Ref(d).species(p) is None:
                d[src.of(["atom%d.species" % p, "species%d" % p])] = src.of(SPECIES)
    if not two or Ref(d).natoms() != 2 or src.flip():
        d["nAtoms"] = 2 if two else 1
    # quantum numbers
    mode = src.pick(0, 2)
    if mode == 0:
        # with one common basis several states are only meaningful if they are given for both atoms at once
        if same and src.flip():
            d["atom.qnumbers"] = [qn(src) for _ in range(src.pick(1, 3))]
        many = lambda: [qn(src) for _ in range(src.pick(1, 1 if same else 3))] if src.flip() else qn(src)  # noqa: E731
        if "atom.qnumbers" not in d:
            put(src, d, "qnumbers", many, parts, general=not two)
        for p in parts:
            if Ref(d).single("qnumbers", p) is None:
                d[src.of(["atom%d.qnumbers" % p, "qnumbers%d" % p])] = many()
    else:
        for i, q in enumerate("nljm"):
            v = (lambda i: lambda: qn(src)[i])(i)
            put(src, d, q, v, parts)
            for p in parts:
                if Ref(d).single(q, p) is None:
                    d[src.of(["atom%d.%s" % (p, q), "%s%d" % (q, p)])] = v()
    # fields
    for f in "EB":
        if src.chance(1, 4):
            put(src, d, f + "field", lambda: src.of([list, tuple])(src.of([0.0, 0.5, -1.25, 3.0]) for _ in range(3)), parts)
        else:
            for x in "xyz":
                if src.chance(1, 3):
                    put(src, d, f + x, lambda: src.of([0.0, 0.5, -1.25, 3.0, 1e-3]), parts)
    if src.chance(1, 6):
        put(src, d, "isReal", src.flip, parts)
    # restrictions, one spelling per quantity
    for Q in ("N", "L", "J", "M", "Energy"):
        if Q == "Energy" and not energies:
            continue
        k = src.pick(0, 5)
        val = lambda: src.of([0, 1, 2, 5, 10]) if Q != "Energy" else src.of([0.5, 2.0, 64.0])  # noqa: E731,B023
        neg = lambda: -1 if src.chance(1, 5) else val()  # noqa: E731,B023
        if k == 0:
            put(src, d, src.of(["d", "delta"]) + Q, neg, parts, general=not two)
        elif k == 1:
            put(src, d, src.of(["d", "delta"]) + (Q if Q != "Energy" or src.flip() else "Energy") + "Single", neg, parts)
        elif k == 2 and Q == "Energy":
            put(src, d, "deltaESingle", neg, parts)
        elif k in (2, 3):
            lo = val()
            spell = src.of(["", "atom."] + ["atom1."] * (not two)) if not two or Q != "Energy" else src.of(["atom.", ""])
            d[spell + "min" + Q], d[spell + "max" + Q] = lo, lo + val()
            if src.chance(1, 3):
                d["atom.delta" + Q + "Single"] = val()
            if src.chance(1, 3):
                d["atom1.min" + Q] = lo - 1
        if two and src.chance(1, 4) and k != 0:
            if Q != "Energy":
                putpair(src, d, src.of(["d", "delta"]) + Q + "Pair", neg)
            elif src.flip():
                putpair(src, d, "minEnergy", lambda: src.of([-3.5, 0.25]), general=False)
                if "pair.minEnergy" in d:
                    d["pair.maxEnergy"] = 7.75
    # conserved momenta
    k = src.pick(0, 5)
    if k == 0:
        put(src, d, "momenta", lambda: src.of([0.5, -1.5, 2.0, 1, [0.5, 1.5], [1.0]]), parts, general=not two)
    elif k == 1:
        put(src, d, "conserveMomenta", src.flip, parts, general=not two)
    elif k == 2:
        put(src, d, "momenta", lambda: src.of([0.5, [1.5]]), parts, general=not two)
        put(src, d, "conserveMomenta", src.flip, parts, general=not two)
    # pair
    if two:
        for key, alt, val in (("order", "exponent", [3, 4, 5, 1]), ("angle", "theta", [0.0, 0.5, 1.5707]), ("distance", "R", [2.0, 5.5, 1e3]),
                              ("minimalNorm", "minimalNorm", [0.05, 0.25, 1e-3])):
            if src.flip():
                putpair(src, d, src.of([key, alt]), lambda: src.of(val))  # noqa: B023
        for s in ("inversion", "permutation", "reflection"):
            if src.flip():
                putpair(src, d, src.of([s, s[:3]]), lambda: src.of(["ODD", "EVEN", "O", "E", "odd", "even", None, "NONE", "none", "e"]))
        k = src.pick(0, 5)
        if k == 0:
            rows = [(qn(src), qn(src)) for _ in range(src.pick(1, 3))]
            form = src.pick(0, 3)
            d["pair.qnumbers"] = (rows[0][0] + rows[0][1] if form == 0 else [a + b for a, b in rows] if form == 1 else [tuple(zip(a, b)) for a, b in rows] if form == 2
                                  else [(a, b) for a, b in rows])
        elif k == 1:
            r = Ref(d)
            if len(r.qn(1)) + (0 if same else len(r.qn(2))) == 2:
                putpair(src, d, "useQnumbersSingleAsPair", lambda: True)
        k = src.pick(0, 4)
        if k == 0:
            putpair(src, d, "momenta", lambda: src.of([0, 1, -2, [0, 1], 2.0]), general=False)
        elif k == 1:
            d["pair.conserveMomenta"] = src.flip()
            if src.flip():
                d["pair.momenta"] = 1
    # global
    for key, val in (("pathCache", ["/tmp/x/", "c"]), ("method", ["numerov", "WHITTAKER", "Whittaker", "NUMEROV"]), ("diagonalizeThreshold", [1e-8, 1e-10, 0.5]),
                     ("diamagnetism", [True, False])):
        if src.chance(1, 3):
            d[key] = src.of(val)
    return d


def spell(src, d):
    """The same settings with another order of keys and another nesting."""
    items, top, groups = src.shuffle(d.items()), {}, {}
    nest = src.pick(0, 2)
    for k, v in items:
        if "." in k and (nest == 1 or (nest == 2 and src.flip())):
            g, key = k.split(".", 1)
            if g not in groups:
                groups[g] = top[g] = {}
            groups[g][key] = v
        else:
            top[k] = v
    return top


def ask(c, name):
    try:
        return eval("c." + name, {"c": c})
    except ValueError:
        return "ValueError"


def equal(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, str) != isinstance(b, str):
        return False
    return bool(a == b) and (a is None) == (b is None)


def compare(c, ref, names, when):
    want = ref.getters()
    for n in names:
        got = ask(c, n)
        vp.check(equal(got, want[n]), when, n, "gives", got, "instead of", want[n])


def compare_out(c, ref):
    want = ref.outdict()
    if want is None:
        return
    got = {k: v for k, v in c.toOutDict().items() if not k.endswith("_energies")}
    for k in sorted(set(want) | set(got)):
        vp.check(k in got and k in want and equal(got[k], want[k]), "toOutDict:", k, "is", got.get(k, "missing"), "instead of", want.get(k, "missing"))


def history(src, c, ref, n):
    names = sorted(ref.getters())
    for _ in range(n):
        k = src.pick(0, 12)
        if k == 0:
            try:
                c.toOutDict()
            except (ValueError, NotImplementedError):
                pass
        elif k == 1:
            try:
                c.toHash()
            except (ValueError, NotImplementedError):
                pass
        else:
            ask(c, src.of(names))


@vp.facet("resolution", 12000, 150000, "at least one key is given at two levels of specificity")
def resolution(src):
    d = gen(src)
    ref = Ref(d)
    user = spell(src, d)
    vp.note(user)
    c = Config(CustomDict(user, flattened=True) if src.chance(1, 4) else user)
    vp.label("two atoms" if ref.natoms() == 2 else "one atom")
    bases = [k.split(".")[-1].rstrip("12") for k in d]
    vp.nontrivial(len(set(bases)) < len(bases))
    history(src, c, ref, src.size(0, 6))
    names = src.shuffle(sorted(ref.getters()))
    compare(c, ref, names, "first:")
    compare_out(c, ref)
    compare(c, ref, src.shuffle(names), "again:")
    vp.check(repr(user) == repr(spell(vp.Src(choices=[]), {})) or True)


def mutate(src, d):
    """A dictionary which differs in one place (effective or not)."""
    e = dict(d)
    k = src.of(sorted(e))
    v = e[k]
    if isinstance(v, bool):
        e[k] = not v
    elif isinstance(v, float):
        e[k] = src.of([np.nextafter(v, INF).item(), v + 1.0, -v if v else 1.0])
    elif k == "nAtoms":
        e[k] = 3 - v
    elif isinstance(v, int):
        e[k] = v + 1
    elif isinstance(v, (list, tuple)) and v and isinstance(v[0], float):
        i = src.pick(0, len(v) - 1)
        e[k] = type(v)(x + 1.0 if j == i else x for j, x in enumerate(v))
    elif k.endswith("species") or "species" in k:
        e[k] = src.of(SPECIES)
    elif k == "pathCache":
        e[k] = v + "2"
    elif k == "method":
        e[k] = "NUMEROV" if v.upper() == "WHITTAKER" else "WHITTAKER"
    elif v is None or v in ("ODD", "EVEN", "O", "E", "odd", "even", "NONE", "none", "e"):
        e[k] = src.of(["EVEN", "ODD", None])
    elif src.flip():
        del e[k]
    return e


def same_key(r):
    o = r.outdict()
    if o is None:
        return None, None
    parts = (1, 2) if r.natoms() == 2 and not r.same() else (1,)
    o["qn"] = [r.qn(p) for p in parts] + ([r.qnpair()] if r.natoms() == 2 else [])
    canon = lambda v: tuple(canon(x) for x in v) if isinstance(v, (list, tuple)) else float(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v  # noqa: E731
    strict = lambda v: tuple(strict(x) for x in v) if isinstance(v, (list, tuple)) else v  # noqa: E731
    return tuple(sorted((k, repr(canon(v))) for k, v in o.items())), tuple(sorted((k, repr(strict(v))) for k, v in o.items()))


@vp.facet("identifier", 15000, 150000, "the two dictionaries are not written identically")
def identifier(src):
    d = gen(src)
    e = dict(d)
    for _ in range(src.of([0, 1, 1, 2])):
        e = mutate(src, e)
    if src.chance(1, 4):  # key the calculation does not know
        e["comment"] = "x"
    a, b = Ref(d), Ref(e)
    try:
        (ka, sa), (kb, sb) = same_key(a), same_key(b)
    except (TypeError, IndexError, KeyError):
        raise vp.Discard()
    if ka is None or kb is None or any(r.natoms() == 2 and r.species(1 if r.same() else 2) is None for r in (a, b)):
        raise vp.Discard()
    ua, ub = spell(src, d), spell(src, e)
    vp.note(ua, "\n", ub)
    vp.nontrivial(repr(ua) != repr(ub))
    ca, cb = Config(ua), Config(ub)
    try:
        history(src, ca, a, src.size(0, 5))
        history(src, cb, b, src.size(0, 5))
    except Exception:
        raise vp.Discard()
    if src.flip():
        ca = ca.deepCopy() if src.flip() else ca.shallowCopy()
    ha, hb = ca.toHash(), cb.toHash()
    vp.label("same" if ka == kb else "different")
    if sa == sb:
        vp.check(ha == hb, "same effective parameters, but identifiers", ha, hb)
    elif ka != kb:
        vp.check(ha != hb, "different effective parameters share the identifier", ha, ":", [x for x in zip(ka, kb) if x[0] != x[1]][:3])
    vp.check(ca.toHash() == ha and cb.toHash() == hb, "the identifier changes when it is requested again")


@vp.facet("copies", 5000, 80000, "a setting was changed after a copy was made")
def copies(src):
    d = gen(src)
    cfg = [(Config(spell(src, d)), dict(d))]
    vp.note(d)
    changed = False
    for _ in range(src.size(1, 12)):
        i = src.pick(0, len(cfg) - 1)
        c, m = cfg[i]
        k = src.pick(0, 6)
        if k == 0 and len(cfg) < 4:
            cfg.append((c.shallowCopy(), m))
            vp.note("shallow copy of", i)
        elif k == 1 and len(cfg) < 4:
            cfg.append((c.deepCopy(), dict(m)))
            vp.note("deep copy of", i)
        elif k in (2, 3):
            f, p, v = src.of("EB"), src.pick(1, 2), [src.of([0.0, 0.25, -2.0]) for _ in range(3)]
            (c.setEfield if f == "E" else c.setBfield)(v, p)
            m["atom%d.%sfield" % (p, f)] = v
            vp.note("set", f, p, v, "in", i)
            changed = len(cfg) > 1
        elif k == 4:
            s, v = src.of(["inversion", "permutation", "reflection"]), src.of(["ODD", "EVEN", None])
            c.setSymmetry(s, v)
            m["pair." + s] = v
            vp.note("set", s, v, "in", i)
            changed = len(cfg) > 1
        elif k == 5:
            v = src.of([0.0, 0.125, 1.0])
            c.setAngle(v)
            m["pair.angle"] = v
            vp.note("set angle", v, "in", i)
        else:
            v = src.of([1.0, 4.5, 77.0])
            c.setDistance(v)
            m["pair.distance"] = v
            vp.note("set distance", v, "in", i)
        names = sorted(Ref(m).getters())
        for c2, m2 in cfg:
            compare(c2, Ref(m2), [src.of(names) for _ in range(3)], "copy:")
    vp.nontrivial(changed)
    for c, m in cfg:
        compare(c, Ref(m), src.shuffle(sorted(Ref(m).getters())), "at the end:")
        compare_out(c, Ref(m))


# ---------------------------------------------------------------- dictionary which tracks unused keys
@vp.facet("dictionary", 10000, 100000, "keys were read or changed")
def dictionary(src):
    def nested(depth):
        return {src.of("abcdef"): (nested(depth - 1) if depth and src.chance(1, 2) else src.pick(0, 9)) for _ in range(src.size(0, 4))}

    def flat(x, pre=""):
        o = {}
        for k, v in x.items():
            o.update(flat(v, pre + k + ".") if isinstance(v, dict) else {pre + k: v})
        return o

    x = nested(3)
    vp.note(x)
    if src.chance(1, 3):
        r = CustomDict(x, recursive=True)
        vp.check(r.as_dict_recursive() == x, "recursive dictionary gives back", r.as_dict_recursive())
        r = CustomDict(x, recursive=True)
        used = set()
        for path in [p for p in flat(x) if src.flip()]:
            y = r
            for i, k in enumerate(path.split(".")):
                y = y[k]
                used.add(".".join(path.split(".")[:i + 1]))
        un = set(r.get_unused_recursive())
        want = {p for p in flat(x) if p not in used}
        vp.check({p for p in un if p in flat(x)} == want, "unused keys", un, "instead of", want)
        vp.nontrivial(bool(used))
        return
    d, m = CustomDict(x, flattened=True), flat(x)
    unused = set(m)
    items = [(d, m, unused)]
    for _ in range(src.size(1, 14)):
        d, m, unused = items[src.pick(0, len(items) - 1)]
        k, key = src.pick(0, 7), src.of(sorted(m) + ["zz", "a"])
        vp.note(k, key)
        vp.nontrivial()
        if k == 0:
            vp.check(d.get(key, None) == m.get(key, None), "get")
            unused.discard(key)
        elif k == 1:
            vp.check(d.silent_get(key) == m.get(key), "silent_get")
        elif k == 2:
            d[key] = m[key] = src.pick(10, 20)
            unused.add(key)
        elif k == 3:
            vp.check((key in d) == (key in m), "in")
            unused.discard(key)
        elif k == 4 and key in m:
            del d[key]
            del m[key]
            unused.discard(key)
        elif k == 5 and len(items) < 4:
            items.append((d.copy(), dict(m), set(unused)))
        elif k == 6:
            vp.check(sorted(d) == sorted(m) and len(d) == len(m), "keys", sorted(d))
        elif k == 7:
            try:
                v = d[key]
                vp.check(key in m and v == m[key], "value")
            except KeyError:
                vp.check(key not in m, "KeyError for a given key")
            unused.discard(key)
        for d, m, unused in items:
            vp.check(set(d.unused) == unused, "unused", set(d.unused), "instead of", unused)
            vp.check(set(d.get_unused_recursive()) == unused, "get_unused_recursive")
    for d, m, unused in items:
        vp.check(dict(d) == m, "content", dict(d), "instead of", m)


# ---------------------------------------------------------------- updates of atoms
def fields_of(system):
    return system.E + system.B


def check_atom(a, ref, p, arith):
    """The system of one atom has exactly the settings of the configuration."""
    s = a.system
    vp.check(s.module == ("pireal" if arith else "picomplex"), "arithmetic", s.module)
    vp.check(a.config.nAtoms() == 1, "a single atom claims to be two")
    vp.check(s.species == ref.species(p), "species", s.species)
    for f, got in (("E", s.E), ("B", s.B)):
        vp.check(equal([float(x) for x in ref.field(f, p)], got), "atom", p, f, "field of the system is", got, "instead of", ref.field(f, p))
    vp.check(s.dia == ref.d.get("diamagnetism", False), "diamagnetism")
    vp.check(s.momenta == (ref.momenta(p) if ref.conserve(p) else None), "momenta", s.momenta)
    for Q in ("N", "L", "J", "M", "Energy"):
        w = ref.restrict(Q, p)
        vp.check(s.restrict.get(Q) == (None if w[0] is None else w), "restriction of", Q, "is", s.restrict.get(Q), "instead of", w)


def check_pair(a, ref, arith):
    s = a.system
    vp.check(s.module == s.s1.module == s.s2.module == ("pireal" if arith else "picomplex"), "arithmetic", s.module)
    same = ref.same()
    for p, one in ((1, s.s1), (1 if same else 2, s.s2)):
        vp.check(one.species == ref.species(p), "species of atom", p, "in the pair", one.species)
        for f, got in (("E", one.E), ("B", one.B)):
            vp.check(equal([float(x) for x in ref.field(f, p)], got), "atom", p, "in the pair:", f, "field is", got, "instead of", ref.field(f, p))
    vp.check(s.angle == ref.pair("angle", ref.pair("theta", 0)), "angle", s.angle)
    vp.check(s.distance == ref.pair("distance", ref.pair("R", INF)), "distance", s.distance)
    vp.check(s.order == ref.pair("order", ref.pair("exponent", 3)), "order", s.order)
    vp.check(s.norm == ref.pair("minimalNorm", 5e-2), "minimal norm", s.norm)
    vp.check(s.momenta == (ref.momenta("pair") if ref.conserve("pair") else None), "pair momenta", s.momenta)
    for sym in ("inversion", "permutation", "reflection"):
        w = {None: None, "ODD": 1, "EVEN": 2}[ref.sym(sym)]
        vp.check(s.sym.get(sym) == w, sym, s.sym.get(sym), "instead of", w)
    if ref.dq("Energy", "pair") is not None or ref.pair("minEnergy") is not None:
        w = ref.restrict("Energy", "pair")
        vp.check(s.restrict == w, "pair energies restricted to", s.restrict, "instead of", w)


def expected_energies(ref):
    """The fake systems' energies for the effective settings, as a sorted list."""
    def one(p):
        return [guistub.energy(ref.species(p), q) + guistub.shift(ref.field("E", p), ref.field("B", p), q, ref.d.get("diamagnetism", False)) for q in sorted(set(guistub.BASIS))]
    if ref.natoms() == 1:
        return sorted(one(1))
    r = ref.pair("distance", ref.pair("R", INF))
    tag = (0 if r == INF else 1 / r ** 3) + ref.pair("angle", ref.pair("theta", 0)) / 16
    tag += sum((i + 1) * 2.0 ** -12 for i, k in enumerate(sorted(s for s in ("inversion", "permutation", "reflection") if ref.sym(s))))
    return sorted(a + b + tag for a in one(1) for b in one(1 if ref.same() else 2))


def model_update(ref, new):
    """Applies an update to the model; returns whether anything effective changed."""
    before = repr_settings(ref)
    two = ref.natoms() == 2
    fields = {}
    for k, v in new.items():
        k2 = k[5:] if k.startswith("atom.") else k
        if k2[:1] in "EB" and len(k2) == 2:
            fields[k2] = v
    for p in ((1, 2) if two and not ref.same() else (1,)):
        for f in "EB":
            v = [float(x) for x in ref.field(f, p)]
            w = [fields.get(f + x, v[i]) for i, x in enumerate("xyz")]
            if w != v:
                ref.d["atom%d.%sfield" % (p, f)] = w
    for k in ("distance", "angle", "inversion", "permutation", "reflection"):
        if k in new:
            if k in ("distance", "angle") or ref.sym(k) != new[k]:
                ref.d["pair." + k] = new[k]
    return before != repr_settings(ref)


def repr_settings(ref):
    two = ref.natoms() == 2
    o = [[float(x) for f in "EB" for x in ref.field(f, p)] for p in ((1, 2) if two and not ref.same() else (1,))]
    if two:
        o += [float(ref.pair("angle", ref.pair("theta", 0))), float(ref.pair("distance", ref.pair("R", INF)))] + [ref.sym(s) for s in ("inversion", "permutation", "reflection")]
    return o


@vp.facet("updates", 20000, 400000, "at least two updates, one of which changed something")
def updates(src):
    d = gen(src)
    for k in [k for k in d if "isReal" in k]:
        del d[k]
    if src.chance(1, 3):  # restricted by the energies of the pair states
        for k in [k for k in d if k.split(".")[-1].rstrip("12") in ("Efield", "Bfield", "Ex", "Ey", "Ez", "Bx", "By", "Bz", "diamagnetism") or "Energy" in k]:
            del d[k]
        if Ref(d).natoms() == 2:
            d["pair.deltaEnergyPair"] = 2.5
    ref = Ref(d)
    ref0 = ref.real()  # decided when the systems are created
    if any(ref.momenta(p) == "ValueError" for p in ([1, "pair"] if ref.natoms() == 2 and ref.same() else [1, 2, "pair"] if ref.natoms() == 2 else [1])):
        raise vp.Discard()
    two = ref.natoms() == 2
    if two:
        if any(ref.restrict(Q, "pair")[0] is not None for Q in "NLJM"):
            raise vp.Discard()  # refused by AtomTwo
    states = {q for p in ((1, 2) if two else (1,)) for q in ref.qn(1 if ref.same() else p)} | {q for r in (ref.qnpair() if two else []) for q in (r[:4], r[4:])}
    guistub.BASIS[:] = sorted(states | {(11, 0, 0.5, 0.5)})
    vp.note(spell(src, d))
    atoms = [(atom_from_config(spell(src, d)), dict(d))]
    if two and "pair.deltaEnergyPair" in d:
        _ = atoms[0][0].system  # the energies which restrict the pair basis are those at the time of its construction
    n_up = n_eff = 0
    for _ in range(src.size(1, 9)):
        i = src.pick(0, len(atoms) - 1)
        a, m = atoms[i]
        r = Ref(m)
        k = src.pick(0, 7)
        if k == 0 and len(atoms) < 3:
            atoms.append((a.copy(), dict(m)))
            vp.note("copy of", i)
        elif k == 1:
            a.calcEnergies(sort=src.flip(), calc_overlaps=src.chance(1, 4))
            e = sorted(float(x) for x in a.energies)
            vp.check(len(e) == len(expected_energies(r)) and np.allclose(e, expected_energies(r), rtol=0, atol=1e-9), "energies", e[:4], "instead of", expected_energies(r)[:4])
            vp.note("energies of", i)
        elif k == 2:
            _ = a.system
            vp.note("system of", i)
        else:
            new, prefix = {}, "atom." if two and src.chance(1, 3) else ""
            cand = ["Ex", "Ey", "Ez", "Bx", "By", "Bz"]
            for key in cand:
                if src.chance(1, 5):
                    f, x = key[0], "xyz".index(key[1])
                    new[prefix + key] = src.of([0.0, 0.5, -1.25, 2.0, float(r.field(f, 1)[x])])
            if two:
                if src.chance(1, 3):
                    new["distance"] = src.of([2.0, 5.5, 9.25])
                if src.chance(1, 3):
                    new["angle"] = src.of([0.0, 0.5, 0.75])
                for s in ("inversion", "permutation", "reflection"):
                    if src.chance(1, 6):
                        new[s] = src.of(["ODD", "EVEN", None])
            # arithmetic (real or complex) is fixed when the system is created
            ys = {k2.replace("atom.", "") for k2 in new if k2.endswith("y")}
            if any(new.get(prefix + y, 0) != r.field(y[0], p)[1] for y in ys for p in ((1, 2) if two and not r.same() else (1,))):
                for y in ys:
                    del new[prefix + y]
            given = dict(new)
            had = a.energies is not None
            want = model_update(r, new)
            got = a.updateFromParams(new)
            vp.note("update", i, given)
            vp.check(new == given, "the given parameters were modified:", new)
            vp.check(bool(got) == want, "update", given, "reported as", got, "instead of", want)
            vp.check(not want or a.energies is None, "energies of the previous settings are still there")
            vp.check(want or (a.energies is not None) == had, "energies were dropped without a change")
            n_up += 1
            n_eff += want
        for a2, m2 in atoms if src.chance(1, 2) else []:
            r2 = Ref(m2)
            compare(a2.config, r2, [n for n in r2.getters() if "field" in n or n in ("angle()", "distance()", "reflection()")], "after update:")
    vp.nontrivial(n_up > 1 and n_eff)
    for a, m in atoms:
        r = Ref(m)
        if two:
            check_pair(a, r, ref0)
            for p, one in zip((1, 2), a.atoms):
                check_atom(one, r, p, ref0)
        else:
            check_atom(a, r, 1, ref0)
        a.calcEnergies()
        e = sorted(float(x) for x in a.energies)
        w = expected_energies(r)
        vp.check(len(e) == len(w) and np.allclose(e, w, rtol=0, atol=1e-9), "energies at the end", e[:4], "instead of", w[:4])


@vp.facet("updates-refused", 400, 4000, "always")
def refused(src):
    two = src.flip()
    d = {"species": "Rb", "n": 7, "l": 0, "j": 0.5, "m": 0.5, "nAtoms": 2 if two else 1}
    guistub.BASIS[:] = [(7, 0, 0.5, 0.5)]
    a = atom_from_config(d)
    bad = src.of(["Efield", "n", "foo", "species", "E", "R", "atom1.Ex"] + ([] if two else ["distance", "angle", "inversion"]))
    new = {"Ex": 1.0, bad: 2.0} if src.flip() else {bad: 2.0, "Bz": 1.0}
    vp.note(two, new)
    vp.nontrivial()
    try:
        a.updateFromParams(new)
    except ValueError:
        vp.check(a.config.Efield(1 if two else None) == [0, 0, 0] and a.config.Bfield(1 if two else None) == [0, 0, 0], "a refused update changed the fields")
        return
    vp.check(False, "unknown parameter accepted")


if __name__ == "__main__":
    sys.exit(vp.main())
