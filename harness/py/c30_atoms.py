"""C30: energies and eigenvectors which the front end's atom objects attribute to states.  The stand-in systems have explicit, mixed
eigenvectors which depend on all settings; the reference looks states up in them directly."""
import contextlib, io, logging, os, pickle, sys, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp, guistub  # noqa: E402
guistub.install()
import numpy as np  # noqa: E402
from scipy import sparse  # noqa: E402
from pairinteraction_gui.pipy.atom import atom_from_config  # noqa: E402
logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")

WORLD = {"seed": 0, "mix": 0.0, "drop": 0}  # of the current case: how the eigenvectors are made
CACHE = {}


def eig(key, n, cx, diag):
    """Eigenvectors (columns; possibly fewer than states, as with symmetries) and energies for the settings key."""
    if not diag:
        return np.eye(n), np.arange(n) * 0.5
    k = (WORLD["seed"], WORLD["mix"], WORLD["drop"], key, n, cx)
    if k not in CACHE:
        h = WORLD["seed"]
        for c in repr(key).encode():
            h = (h * 1000003 + c) % (1 << 32)
        r = np.random.RandomState(h)
        a = r.standard_normal((n, n)) * WORLD["mix"] + np.diag(np.arange(n) * 1.0)
        if cx:
            a = a + 1j * r.standard_normal((n, n)) * WORLD["mix"]
        _, v = np.linalg.eigh((a + a.conj().T) / 2)
        p = r.permutation(n)[: max(1, n - WORLD["drop"])]
        CACHE[k] = (v[:, p], np.round(r.permutation(64 * n)[: len(p)] / 8.0 - 3 * n, 3))
    return CACHE[k]


def one_states(s):
    return [q for q in sorted(set(guistub.BASIS)) if all(lo <= x <= hi for Q, x in zip("NLJM", q) for lo, hi in [s.restrict.get(Q, (-1e9, 1e9))])]


def one_key(s):
    return ("one", s.species, tuple(s.E), tuple(s.B), s.dia, s.cache.method)


def two_key(s):
    return ("two", one_key(s.s1), one_key(s.s2), s.distance, s.angle, s.order, tuple(sorted((k, v) for k, v in s.sym.items() if v)))


def install(cls, states, key, make):
    def cur(s):
        return eig(key(s), len(states(s)), s.module == "picomplex", s.diag)

    def overlap(s, state):
        if getattr(state, "module", s.module) != s.module:
            raise TypeError("real and complex objects mixed")
        st = [x for x in states(s)]
        v, _ = cur(s)
        q = make.of(state)
        ok = make.species(s) == state.species and q in st
        return np.abs(v[st.index(q)]) ** 2 if ok else np.zeros(v.shape[1])
    cls.getNumStates = lambda s: len(states(s))
    cls.getNumBasisvectors = lambda s: cur(s)[0].shape[1]
    cls.getStates = lambda s: [make(s, q) for q in states(s)]
    cls.getMainStates = lambda s: [make(s, states(s)[i]) for i in np.argmax(np.abs(cur(s)[0]) ** 2, axis=0)]
    cls.getBasisvectors = lambda s: sparse.csc_matrix(cur(s)[0])
    cls.energies = lambda s: list(cur(s)[1])
    cls.getOverlap = overlap


class MakeOne:
    def __call__(self, s, q):
        return guistub.StateOne(s.species, *q)

    of = staticmethod(lambda st: st.qn)
    species = staticmethod(lambda s: s.species)


class MakeTwo:
    def __call__(self, s, p):
        return guistub.StateTwo([s.s1.species, s.s2.species], *zip(*p))

    of = staticmethod(lambda st: tuple(st.qns))
    species = staticmethod(lambda s: [s.s1.species, s.s2.species])


install(guistub.SystemOne, one_states, one_key, MakeOne())
install(guistub.SystemTwo, lambda s: [(a, b) for a in one_states(s.s1) for b in one_states(s.s2)], two_key, MakeTwo())


# ------------------------------------------------------------- the settings of a case and what they mean
class Model:
    def __init__(self, src):
        self.two = src.flip()
        self.species = ["Rb", "Rb" if src.flip() else "Cs"] if self.two else ["Rb"]
        self.same = self.two and self.species[0] == self.species[1] and src.flip()
        self.cx = src.chance(1, 3)
        self.E = [[0.0, 0.5 if self.cx else 0.0, src.of([0.0, 1.0])]] * 2
        self.B = [[0.0, 0.0, src.of([0.0, 2.0])]] * 2
        self.distance, self.angle = src.of([float("inf"), 5.0]), src.of([0, 0.5])
        self.dia = src.flip()
        self.method = src.of(["WHITTAKER", "NUMEROV"])
        self.centre = [(6, 0, 0.5, 0.5), (6, 0, 0.5, 0.5) if self.same else src.of([(6, 0, 0.5, 0.5), (7, 1, 1.5, -0.5)])]

    def config(self):
        d = {"nAtoms": 2 if self.two else 1, "diamagnetism": self.dia, "method": self.method, "isReal": not self.cx, "pathCache": "cache"}
        for i in range(2 if self.two else 1):
            p = "atom%d." % (i + 1)
            d.update({p + "species": self.species[i], p + "Efield": self.E[i], p + "Bfield": self.B[i]})
            d.update({p + k: v for k, v in zip("nljm", self.centre[i])})
        if self.two:
            d.update({"pair.distance": self.distance, "pair.angle": self.angle, "pair.useQunumbersSinglePair": True, "samebasis": self.same})
        return d

    def states(self):
        s = sorted(set(guistub.BASIS))
        return [(a, b) for a in s for b in s] if self.two else s

    def one(self, i):
        return ("one", self.species[i], tuple(self.E[i]), tuple(self.B[i]), self.dia, self.method.lower())

    def eig(self):
        key = ("two", self.one(0), self.one(0 if self.same else 1), self.distance, float(self.angle), 3, ()) if self.two else self.one(0)
        return eig(key, len(self.states()), self.cx, True)

    def copy(self):
        m = Model.__new__(Model)
        m.__dict__.update({k: (list(v) if isinstance(v, list) else v) for k, v in self.__dict__.items()})
        return m


def flat(q):
    return q[0] + q[1] if isinstance(q[0], tuple) else q


def transposed(q):
    return tuple(zip(*q)) if isinstance(q[0], tuple) else q


def want(model, q):
    """Energies of the eigenvectors which have the largest overlap with a state."""
    v, e = model.eig()
    o = np.abs(v[model.states().index(q)]) ** 2
    return [x for x, y in zip(e, o) if y > max(o) - 1e-9]


class Item:
    def __init__(self, atom, model):
        self.a, self.m, self.sort, self.have, self.ov = atom, model, False, False, False


def world(src):
    WORLD.update(seed=src.pick(0, 1 << 20), mix=src.of([0.0, 0.2, 1.0, 5.0]), drop=src.of([0, 0, 1, 5]))
    CACHE.clear()
    allq = [(n, l, j, m) for n in (6, 7) for l, j in ((0, 0.5), (1, 0.5), (1, 1.5)) for m in (-0.5, 0.5)]
    guistub.BASIS[:] = sorted({(6, 0, 0.5, 0.5), (7, 1, 1.5, -0.5)} | {src.of(allq) for _ in range(src.pick(0, 4))}) if src.chance(4, 5) else [(6, 0, 0.5, 0.5)]


def inspect(it):
    """Everything an atom tells about its eigenstates belongs together."""
    a, m = it.a, it.m
    v, e = m.eig()
    st = m.states()
    order = np.argsort(e) if it.sort else np.arange(len(e))
    vp.check(len(a.energies) == len(e) and np.array_equal(a.energies, e[order]), "energies", list(a.energies)[:5], "instead of", list(e[order])[:5])
    vec = a.vectors.toarray() if sparse.issparse(a.vectors) else np.array(a.vectors)
    vp.check(vec.shape == v.shape and np.allclose(vec, v[:, order], rtol=0, atol=1e-12), "the eigenvectors do not belong to the energies")
    vp.check([tuple(q) for q in a.allQunumbers] == [transposed(q) for q in st], "states of the rows", a.allQunumbers[:3])
    vp.check([type(q) for q in a.allQunumbers] == [tuple] * len(st), "type of the states")
    main = [transposed(st[i]) for i in np.argmax(np.abs(v) ** 2, axis=0)]
    vp.check([tuple(q) for q in a.basisQunumbers] == main, "states of the basis vectors", a.basisQunumbers[:3], "instead of", main[:3])
    if it.ov:
        vp.check(a.overlaps is not None and np.allclose(a.overlaps, np.abs(v[:, order]) ** 2, rtol=0, atol=1e-12), "overlaps with the states")
    i = len(main) // 2
    q = main[i]
    vp.check(a.findQunumberIndex(q) == main.index(q), "index of", q)
    if m.two:
        vp.check(a.findQunumberIndex(list(zip(*q))) == main.index(q), "index of", list(zip(*q)))


def lookup(it, src):
    """Asks for the energies of some states."""
    st = it.m.states()
    v, _ = it.m.eig()
    seen = [q for i, q in enumerate(st) if np.sum(np.abs(v[i]) ** 2) > 1e-3]  # states which are present in the basis
    if not seen:
        return
    qs = [src.of(seen) for _ in range(src.pick(1, 4))]
    form = src.pick(0, 2)
    arg = [flat(q) for q in qs]
    if it.have and it.ov and it.m.two and src.chance(1, 4):  # stored overlaps are also found by the atoms' own description of states
        got = it.a.getEnergiesStates([transposed(q) for q in qs])
        vp.check(len(got) == len(qs) and all(g in want(it.m, q) for q, g in zip(qs, got)), "energies", got, "of", qs)
    arg = arg if form == 0 else [list(q) for q in arg] if form == 1 else np.array(arg)
    vp.note("energies of", qs)
    if not it.have:
        try:
            it.a.getEnergiesStates(arg)
        except ValueError:
            return
        vp.check(False, "energies are returned before they are calculated")
    got = it.a.getEnergiesStates(arg)
    vp.check(len(got) == len(qs), "number of energies", len(got))
    for q, g in zip(qs, got):
        vp.check(g in want(it.m, q), "energy of", q, "is", g, "instead of", want(it.m, q))
    vp.check(it.a.getEnergyState(arg[0]) in want(it.m, qs[0]), "energy of a single state", qs[0])


@vp.facet("lookup", 8000, 120000, "a state was looked up after the eigenvectors mix states")
def facet_lookup(src):
    world(src)
    m = Model(src)
    vp.note(m.config(), dict(WORLD), list(guistub.BASIS))
    items = [Item(atom_from_config(m.config()), m)]
    asked = False
    for _ in range(src.size(2, 10)):
        it = items[src.pick(0, len(items) - 1)]
        k = src.pick(0, 9)
        if k <= 2:
            sort, ov = src.flip(), src.flip()
            vp.note("calculate", items.index(it), "sort", sort, "overlaps", ov)
            it.a.calcEnergies(sort=sort, calc_overlaps=ov)
            it.sort, it.have, it.ov = sort, True, ov
            inspect(it)
        elif k <= 5:
            lookup(it, src)
            asked |= it.have
        elif k == 6 and len(items) < 3:
            items.append(Item(it.a.copy(), it.m.copy()))
            vp.note("copy of", items.index(it))
        elif k == 7:
            it.a.delete()
            it.have = it.ov = False
            vp.note("delete", items.index(it))
            if src.flip():
                vp.check([tuple(q) for q in it.a.basisQunumbers] == [transposed(q) for q in it.m.states()], "basis of the new system", it.a.basisQunumbers[:3])
                vp.check([str(q) for q in it.a.allQunumbers] == [str(q) for q in it.a.basisQunumbers], "states of the new system")
        elif k == 8:
            new = {"Bz": src.of([0.0, 2.0, 3.0])}
            vp.note("update", items.index(it), new)
            changed = [it.m.B[i][2] != new["Bz"] for i in range(2 if it.m.two and not it.m.same else 1)]
            vp.check(it.a.updateFromParams(new) == any(changed), "update is reported wrongly")
            it.m.B = [[0.0, 0.0, new["Bz"]]] * 2
            if any(changed):
                it.have = it.ov = False
                vp.check(it.a.energies is None and it.a.vectors is None and it.a.overlaps is None, "results of the previous settings are still there")
        elif it.m.two:
            new = {"distance": src.of([5.0, 7.0])}
            vp.note("update", items.index(it), new)
            changed = it.m.distance != new["distance"]
            vp.check(it.a.updateFromParams(new) == changed, "update is reported wrongly")
            it.m.distance = new["distance"]
            if changed:
                it.have = it.ov = False
                vp.check(it.a.energies is None and it.a.vectors is None and it.a.overlaps is None, "results of the previous settings are still there")
    for it in items:
        if it.have:
            inspect(it)
            lookup(it, src)
            asked = True
    vp.nontrivial(asked and WORLD["mix"] > 0 and len(guistub.BASIS) > 1)


@vp.facet("pair-window", 4000, 60000, "the one-atom eigenvectors mix states")
def facet_window(src):
    world(src)
    WORLD["drop"] = 0
    m = Model(src)
    m.two = True
    m.species = (m.species + ["Cs"])[:2]
    m.centre = [src.of(guistub.BASIS), src.of(guistub.BASIS)]
    if m.same:
        m.species[1], m.centre[1] = m.species[0], m.centre[0] if src.flip() else m.centre[1]
    d = m.config()
    dE = src.of([0.5, 2.0, 10.0])
    d["pair.deltaEnergyPair"] = dE
    vp.note(d, dict(WORLD), list(guistub.BASIS))
    a = atom_from_config(d)
    s = a.system
    es = []
    for i in (0, 1):
        v, e = eig(m.one(0 if m.same else i), len(guistub.BASIS), m.cx, True)
        o = np.abs(v[sorted(guistub.BASIS).index(m.centre[i])]) ** 2
        es.append([x for x, y in zip(e, o) if y > max(o) - 1e-9])
    ok = [(x + y - dE, x + y + dE) for x in es[0] for y in es[1]]
    vp.check(s.restrict is not None and any(np.allclose(s.restrict, w, rtol=0, atol=1e-9) for w in ok), "pair energies are restricted to", s.restrict, "instead of", ok)
    vp.nontrivial(WORLD["mix"] > 0 and len(guistub.BASIS) > 1)


@vp.facet("absent", 1500, 20000, "always")
def facet_absent(src):
    """States which are not there are not found; malformed ones are refused."""
    world(src)
    m = Model(src)
    a = atom_from_config(m.config())
    if src.flip():
        a.calcEnergies(sort=src.flip())
    st = a.basisQunumbers
    kind = src.pick(0, 2)
    vp.note(m.config(), kind)
    vp.nontrivial()
    q = ((99, 0, 0.5, 0.5), (6, 0, 0.5, 0.5)) if m.two else (99, 0, 0.5, 0.5)
    if kind == 0:
        arg = transposed(q)
    elif kind == 1:
        arg = q[:1] if m.two else q[:3]
    else:
        arg = (q + q)[:3] if m.two else q + (1,)
    try:
        i = a.findQunumberIndex(arg)
    except (ValueError, TypeError):
        return
    vp.check(False, "state", arg, "was found at", i, "of", st[:3])


@vp.facet("pickled", 1500, 20000, "the eigenvectors mix states")
def facet_pickled(src):
    """Atoms are passed on to other processes after their systems were deleted; the results are the same there."""
    world(src)
    m = Model(src)
    vp.note(m.config(), dict(WORLD), list(guistub.BASIS))
    it = Item(atom_from_config(m.config()), m)
    if src.flip():
        it.a.calcEnergies(sort=src.flip(), calc_overlaps=src.flip())
    elif src.flip():
        _ = it.a.basisStates
    it.a.delete()
    b = Item(pickle.loads(pickle.dumps(it.a)), m)
    new = {"Bz": src.of([0.0, 2.0, 3.0])}
    b.a.updateFromParams(new)
    b.m = m.copy()
    b.m.B = [[0.0, 0.0, new["Bz"]]] * 2
    for x in (b, it) if src.flip() else (it, b):
        x.sort = src.flip()
        x.ov = src.flip()
        x.a.calcEnergies(sort=x.sort, calc_overlaps=x.ov)
        x.have = True
        inspect(x)
        lookup(x, src)
    vp.nontrivial(WORLD["mix"] > 0 and len(guistub.BASIS) > 1)


if __name__ == "__main__":
    sys.exit(vp.main())
