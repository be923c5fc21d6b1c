"""Stand-ins for the modules the front end imports but which are not installed here (the compiled extension with its
pireal/picomplex modules and PyQt5), so that the front end's own code runs unchanged.

The fake systems keep their settings and define their energies as an explicit function of them, therefore stale or
misattributed results are visible."""
import os, sys, types
import numpy as np

REPO = os.environ.get("VP_REPO", "/repo")
sys.dont_write_bytecode = True

BASIS = [(5, 0, 0.5, 0.5)]  # states of every fake one-atom system; set by the checks
LOG = []


def energy(species, qn):
    """Field-free energy of a state: distinct dyadic numbers, so that sums and differences are exact."""
    n, l, j, m = qn
    s = sum((i + 1) * ord(c) for i, c in enumerate(species)) % 97
    return s * 64.0 + n * 8.0 + l * 1.0 + j * 0.25 + (m + 20) * (1 / 512.0)


def shift(E, B, qn, dia):
    """Fake field dependence: different for every component."""
    w = [E[0] * 3 + E[1] * 5 + E[2] * 7 + B[0] * 11 + B[1] * 13 + B[2] * 17]
    return w[0] * (1 + qn[1]) / 64.0 + (0.5 if dia else 0)


class _Diag:
    def __init__(self, d):
        self.d = np.array(d)

    def diagonal(self):
        return self.d


class StateOne:
    def __init__(self, species, n, l, j, m):
        if not isinstance(species, str):
            raise TypeError("species")
        self.species, self.qn = species, (int(n), int(l), float(j), float(m))

    def getEnergy(self, *a):
        return energy(self.species, self.qn)

    def getN(self):
        return self.qn[0]

    def getL(self):
        return self.qn[1]

    def getJ(self):
        return self.qn[2]

    def getM(self):
        return self.qn[3]

    def getSpecies(self):
        return self.species

    def __eq__(self, o):
        return self.species == o.species and self.qn == o.qn

    def __hash__(self):
        return hash((self.species, self.qn))


class StateTwo:
    def __init__(self, species, n, l, j, m):
        self.species = list(species)
        self.qns = [(int(n[i]), int(l[i]), float(j[i]), float(m[i])) for i in (0, 1)]

    def getN(self):
        return [q[0] for q in self.qns]

    def getL(self):
        return [q[1] for q in self.qns]

    def getJ(self):
        return [q[2] for q in self.qns]

    def getM(self):
        return [q[3] for q in self.qns]


class MatrixElementCache:
    def __init__(self, path):
        self.path, self.method = path, None

    def setMethod(self, m):
        self.method = m


def _vec(v):
    v = [float(x) for x in v]
    if len(v) != 3:
        raise ValueError("three components needed")
    return v


class SystemOne:
    def __init__(self, a, cache=None):
        if isinstance(a, SystemOne):
            self.__dict__.update({k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in a.__dict__.items()})
            return
        if getattr(self, "module", None) != getattr(cache, "module", None):
            raise TypeError("real and complex objects mixed")
        self.species, self.cache, self.E, self.B, self.dia, self.restrict, self.momenta = a, cache, [0.0] * 3, [0.0] * 3, False, {}, None
        self.diag = False

    def _arith(self, v):
        if getattr(self, "module", "") == "pireal" and v[1] != 0:
            raise RuntimeError("For fields with non-zero y-coordinates, a complex data type is needed.")

    def _set(self, q, lo, hi):
        self.restrict[q] = (lo, hi)

    def restrictN(self, lo, hi):
        self._set("N", lo, hi)

    def restrictL(self, lo, hi):
        self._set("L", lo, hi)

    def restrictJ(self, lo, hi):
        self._set("J", lo, hi)

    def restrictM(self, lo, hi):
        self._set("M", lo, hi)

    def restrictEnergy(self, lo, hi):
        self._set("Energy", lo, hi)

    def setConservedMomentaUnderRotation(self, m):
        self.momenta = list(m)

    def setEfield(self, v):
        self._arith(v)
        self.E, self.diag = _vec(v), False

    def setBfield(self, v):
        self._arith(v)
        self.B, self.diag = _vec(v), False

    def enableDiamagnetism(self, b):
        self.dia, self.diag = bool(b), False

    def buildInteraction(self):
        LOG.append(("build", 1, tuple(self.E), tuple(self.B)))

    def qns(self):
        # the order of the basis vectors differs from the order of the states and depends on the settings
        q = sorted(set(BASIS))
        k = int(sum(abs(x) for x in self.E + self.B) * 8) % len(q)
        return q[k:] + q[:k]

    def getNumStates(self):
        return len(BASIS)

    def getNumBasisvectors(self):
        return len(BASIS)

    def getMainStates(self):
        return [StateOne(self.species, *q) for q in self.qns()]

    def getStates(self):
        return [StateOne(self.species, *q) for q in sorted(set(BASIS))]

    def diagonalize(self, threshold=0):
        self.diag, self.threshold = True, threshold

    def energies(self):
        return [energy(self.species, q) + shift(self.E, self.B, q, self.dia) for q in self.qns()]

    def getHamiltonian(self):
        if not self.diag:
            raise RuntimeError("not diagonalized")
        return _Diag(self.energies())

    def getBasisvectors(self):
        q, s = self.qns(), sorted(set(BASIS))
        m = np.zeros((len(s), len(q)))
        for i, x in enumerate(q):
            m[s.index(x), i] = 1
        return m

    def getOverlap(self, state):
        if state.species != self.species:
            return np.zeros(len(self.qns()))
        return np.array([1.0 if q == state.qn else 0.0 for q in self.qns()])


class SystemTwo:
    def __init__(self, a, b=None, cache=None):
        if isinstance(a, SystemTwo):
            self.__dict__.update({k: (type(v)(v) if isinstance(v, SystemOne) else list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v)
                                  for k, v in a.__dict__.items()})
            return
        if len({getattr(x, "module", None) for x in (self, a, b, cache)}) != 1:
            raise TypeError("real and complex objects mixed")
        self.s1, self.s2, self.cache = type(a)(a), type(b)(b), cache
        self.angle, self.distance, self.order, self.norm, self.momenta, self.sym, self.restrict, self.diag = 0.0, float("inf"), 3, None, None, {}, None, False

    def restrictEnergy(self, lo, hi):
        self.restrict = (lo, hi)

    def setMinimalNorm(self, x):
        self.norm = x

    def setConservedMomentaUnderRotation(self, m):
        self.momenta = list(m)

    def setAngle(self, x):
        self.angle, self.diag = float(x), False

    def setDistance(self, x):
        self.distance, self.diag = float(x), False

    def setOrder(self, x):
        self.order, self.diag = x, False

    def setConservedParityUnderInversion(self, x):
        self.sym["inversion"] = x

    def setConservedParityUnderPermutation(self, x):
        self.sym["permutation"] = x

    def setConservedParityUnderReflection(self, x):
        self.sym["reflection"] = x

    def buildInteraction(self):
        LOG.append(("build", 2, self.distance))

    def pairs(self):
        q = [(a, b) for a in sorted(set(BASIS)) for b in sorted(set(BASIS))]
        k = int(self.angle * 8 + sum(abs(x) for s in (self.s1, self.s2) for x in s.E + s.B) * 8) % len(q)
        return q[k:] + q[:k]

    def getNumStates(self):
        return len(self.pairs())

    def getNumBasisvectors(self):
        return len(self.pairs())

    def _st(self, p):
        return StateTwo([self.s1.species, self.s2.species], *zip(*p))

    def getMainStates(self):
        return [self._st(p) for p in self.pairs()]

    def getStates(self):
        return [self._st(p) for p in sorted(self.pairs())]

    def diagonalize(self, threshold=0):
        self.diag, self.threshold = True, threshold

    def tag(self):
        return (0 if self.distance == float("inf") else 1 / self.distance ** 3) + self.angle / 16 + sum((i + 1) * 2.0 ** -12 for i, k in enumerate(sorted(self.sym)) if self.sym[k])

    def energies(self):
        s1, s2 = self.s1, self.s2
        return [energy(s1.species, a) + shift(s1.E, s1.B, a, s1.dia) + energy(s2.species, b) + shift(s2.E, s2.B, b, s2.dia) + self.tag() for a, b in self.pairs()]

    def getHamiltonian(self):
        if not self.diag:
            raise RuntimeError("not diagonalized")
        return _Diag(self.energies())

    def getBasisvectors(self):
        q, s = self.pairs(), sorted(self.pairs())
        m = np.zeros((len(s), len(q)))
        for i, x in enumerate(q):
            m[s.index(x), i] = 1
        return m

    def getOverlap(self, state):
        if list(state.species) != [self.s1.species, self.s2.species]:
            return np.zeros(len(self.pairs()))
        return np.array([1.0 if list(p) == state.qns else 0.0 for p in self.pairs()])


def install():
    pkg = types.ModuleType("pairinteraction")
    pkg.__path__ = []
    for name in ("pireal", "picomplex"):
        m = types.ModuleType("pairinteraction." + name)
        for c in (StateOne, StateTwo, MatrixElementCache, SystemOne, SystemTwo):
            setattr(m, c.__name__, type(c.__name__, (c,), {"module": name}))
        m.NUMEROV, m.WHITTAKER, m.ODD, m.EVEN, m.NA = "numerov", "whittaker", 1, 2, None
        setattr(pkg, name, m)
        sys.modules["pairinteraction." + name] = m
    sys.modules["pairinteraction"] = pkg
    qt = types.ModuleType("PyQt5")
    qt.__path__ = []
    core = types.ModuleType("PyQt5.QtCore")

    class QThread:
        def __init__(self, parent=None):
            self.parent_ = parent

        def start(self):
            self.run()

        def wait(self, *a):
            return True

        def terminate(self):
            pass

        def msleep(self, t):
            pass

    class Signal:
        def __init__(self, *types_):
            self.emitted = []
            self.slots = []

        def emit(self, *a):
            self.emitted.append(a)
            for s in self.slots:
                s(*a)

        def connect(self, f):
            self.slots.append(f)

    core.QThread, core.pyqtSignal, core.QObject = QThread, Signal, object
    qt.QtCore = core
    sys.modules["PyQt5"], sys.modules["PyQt5.QtCore"] = qt, core
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
