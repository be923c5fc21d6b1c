"""C29: the settings which the main window of the front end shows are the ones that are saved, restored and calculated.  The real
window runs on stand-in widgets which are created from its own description; generated histories of user actions drive it."""
import contextlib, io, json, math, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp, qtui  # noqa: E402
from scipy import constants  # noqa: E402

APP = None
SPIN = {"Li": 0.5, "Na": 0.5, "K": 0.5, "Rb": 0.5, "Cs": 0.5, "Sr1": 0.0, "Sr3": 1.0}
CPP = ["Cs", "K", "Li", "Na", "Rb"]
ALL = -99
SYM = ["invE", "invO", "perE", "perO", "refE", "refO", "conserveM"]
FIELDS = [a + f + x for f in "EB" for a in ("min", "max") for x in "xyz"]
LINES = {"deltaESingle": "delta", "deltaEPair": "delta", "minR": "positive", "maxR": "positive", "theta": "any", **{f: "any" for f in FIELDS},
         **{a + "E_" + p: "none" for a in ("min", "max") for p in ("field1", "field2", "potential", "storage")}, "precision": "positive"}


class Recorder:
    def __init__(self):
        self.started, self.kind = [], None


REC = Recorder()


class FakeProcess:
    def __init__(self, args, **kw):
        REC.started.append(("process", args, kw))
        REC.process = self
        self.stdout, self.done = io.BytesIO(), False

    def terminate(self):
        self.done = True

    def wait(self):
        self.done = True

    def poll(self):
        return 0 if self.done else None


class FakePipy:
    def __init__(self, queues, *a):
        self.params, self.n, self.running = None, None, False

    def setParams(self, p):
        self.params = dict(p)

    def setNumProcesses(self, n):
        self.n = n

    def start(self):
        self.running = True
        REC.started.append(("python", self.params, self.n))

    def terminate(self):
        self.running = False

    def wait(self, *a):
        self.running = False

    def isRunning(self):
        return self.running


class FakeWorker:
    def __init__(self, queues, *a):
        self.criticalsignal, self.exiting, self.stream = qtui.BoundSignal(self), False, None

    def execute(self, stream):
        self.stream = stream

    def wait(self, *a):
        pass

    def isRunning(self):
        return False


def app():
    global APP
    if APP is None:
        d = os.path.join(vp.scratch(), "window")
        os.mkdir(d)
        with quiet():
            APP = qtui.install(d)
        APP.PipyThread, APP.Worker = FakePipy, FakeWorker
        APP.subprocess = type("subprocess", (), {"Popen": FakeProcess, "PIPE": -1, "STDOUT": -2})
        APP._default_gradients = {k: dict(v) for k, v in APP.pg.graphicsItems.GradientEditorItem.Gradients.items()}
    return APP


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def new_home():
    d = vp.fresh_dir()
    os.environ.update({"XDG_CONFIG_HOME": os.path.join(d, "config"), "XDG_CACHE_HOME": os.path.join(d, "cache"), "HOME": d})
    return d


def open_window():
    a = app()
    W[1] = None
    with quiet():
        qtui.SENDERS.clear()
        qtui.QMessageBox.shown.clear()
        return a.MainWindow()


def state(w):
    s = {("system", k): v.magnitude for k, v in w.systemdict.items()}
    s.update({("plot", k): v.magnitude for k, v in w.plotdict.items()})
    return s


def units(w):
    return {k: v.units for k, v in w.systemdict.items()}


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or a is None or b is None:
        return type(a) is type(b) and a == b
    return a == b or abs(a - b) <= 6e-12 * max(abs(a), abs(b))


def diff(a, b):
    return {k: (a[k], b[k]) for k in a if not same(a[k], b[k])}


# ------------------------------------------------------------------------------------------------------- user actions
def number(src, kind):
    x = src.of([0.0, 0.0, 1.0, -1.0, 0.5, 2.0, 10.0, 40.0, 90.0, 45.0]) if src.chance(2, 3) else src.of([src.sym(10), src.sym(1000), src.sym(1e-3), round(src.sym(100), 2)])
    if kind == "positive" or (kind == "delta" and x != -1 and src.chance(3, 4)):
        x = abs(x)
    return x


def text_for(src, kind):
    """(text, the value it stands for, or 'any' when the text is no value of this kind)"""
    if src.chance(1, 12):
        t = src.of(["", "-", "abc", "None", "no", "1e", "-0.5", ".", "+", "1x", "--1", "e5", "-2e", "N", "1.5e"])
        if t == "" or (kind == "none" and t == "None"):
            return t, None if kind == "none" else 0.0
        return t, "any"
    if kind == "none" and src.chance(1, 4):
        return "None", None
    x = number(src, kind)
    t = src.of(["%r", "%g", "%.3f", "%e"]) % x
    x = float(t)
    if kind == "delta" and x < 0 and x != -1:
        return t, -1.0
    if kind == "positive" and t.startswith("-"):
        return t, -x
    return t, x


def in_domain(kind, x):
    if x is None:
        return kind == "none"
    return math.isfinite(x) and (kind in ("any", "none") or x >= 0 or (kind == "delta" and x == -1))


DICTS = [("system", "systemdict"), ("plot", "plotdict")]


def widget(w, key):
    return getattr(w, dict(DICTS)[key[0]]).store[key[1]]["widget"]


def keys(w):
    return [(n, k) for n, d in DICTS for k in getattr(w, d).store]


def quantum(src, w, key):
    n, k = key
    s = SPIN[widget(w, ("system", "species" + k[1])).currentText()]
    if n == "plot" and src.chance(1, 4):
        return ALL
    q = k[0]
    if q == "n":
        return src.of([src.pick(1, 10), src.pick(40, 100), src.pick(1, 999)])
    if q == "l":
        return src.of([src.pick(0, 3), src.pick(0, 3), src.pick(0, 100)])
    if src.chance(1, 10):
        return src.pick(-10, 199) / 2
    lv = widget(w, (n, "l" + k[1])).value()
    if q == "j":
        return max(0, max(lv, 0) + src.of([s, -s])) if src.chance(3, 4) else s % 1 + src.pick(0, 4)
    j = widget(w, (n, "j" + k[1])).value()
    m = src.pick(0, max(0, int(2 * j))) - j if j > 0 else 0
    return m if src.chance(3, 4) else s % 1 + src.pick(-4, 4)


def valid_state(src, w, n, i, almost=False):
    """Enter the quantum numbers of a state that exists (or almost)."""
    s = SPIN[widget(w, ("system", "species%d" % i)).currentText()]
    nn = src.of([src.pick(5, 10), src.pick(40, 100), src.pick(90, 99)])
    l = src.pick(0, min(3, nn - 1))
    js = [j for j in (l - s, l - s + 1, l - s + 2) if abs(l - s) <= j <= l + s]
    j = src.of(js)
    m = src.pick(0, int(2 * j)) - j
    if almost:  # one step beyond the border, or unspecified
        for _ in range(src.pick(1, 2)):
            q = src.of(["l", "l", "j", "m", "n"])
            if n == "plot" and src.flip():
                nn, l, j, m = [ALL if q == c else x for c, x in zip("nljm", (nn, l, j, m))]
            elif q in "ln" and nn < 100 and nn > 0:
                l = nn - src.pick(0, 1)
                j = l + s - src.pick(0, int(2 * s)) if l >= s else l + s
            elif q == "j" and l >= 0:
                j = src.of([l + s + 1, max(abs(l - s) - 1, s % 1)])
                m = min(m, j)
            elif q == "m" and j >= 0:
                m = src.of([1, -1]) * (j + src.pick(0, 1))
    for q, v in zip("nljm", (nn, l, j, m)):
        spin(w, (n, q + str(i)), v)
    shown = [widget(w, (n, q + str(i))).value() for q in "nljm"]
    vp.check(shown == [nn, l, j, m] or l > 90, "entering the state", [nn, l, j, m], "of", n, i, "gave", shown)


def spin(w, key, v):
    o = widget(w, key)
    o.setValue(int(v) if isinstance(o, qtui.QSpinBox) else float(v))
    o.editingFinished.emit()


def act(src, w):
    """One user action; returns (key, text, value it stands for or 'any')."""
    W[0] = w
    if src.chance(1, 8):
        n, i = src.of(["system", "system", "plot"]), src.pick(1, 2)
        if n == "system" or widget(w, ("plot", "overlapDefined")).isChecked():
            before = state(w)
            valid_state(src, w, n, i, src.chance(1, 3))
            vp.note("%s state %d %s" % (n, i, [widget(w, (n, q + str(i))).value() for q in "nljm"]))
            vp.check(not [k for k in diff(before, state(w)) if k[0] != n or k[1] not in [q + str(i) for q in "nljm"] + SYM], "entering a state changed", diff(before, state(w)))
            return None
    ks = keys(w)
    group = src.pick(0, 5)
    if group == 0:
        ks = [k for k in ks if k[1] in FIELDS + ["theta", "exponent", "samebasis", "symAuto", "symManual"]]
    elif group == 1:
        ks = [k for k in ks if k[1] in ("species1", "species2", "python_api", "samebasis")]
    elif group == 2:
        ks = [k for k in ks if k[1].startswith("delta") or k[1].startswith("pairbasis")]
    key = src.of(ks)
    o = widget(w, key)
    if not o.isEnabled():
        return None
    if key[0] == "plot" and len(key[1]) == 2 and key[1][0] in "nljm" and not widget(w, ("plot", "overlapDefined")).isChecked():
        return None
    before = state(w)
    value, t = "any", ""
    if isinstance(o, qtui.QLineEdit):
        t, value = text_for(src, LINES[key[1]])
        o.type_in(t)
        v = state(w)[key]
        vp.check(in_domain(LINES[key[1]], v), key, "typed", repr(t), "left the field with", repr(o.text()))
    elif isinstance(o, (qtui.QSpinBox, qtui.QDoubleSpinBox)):
        if len(key[1]) == 2 and key[1][0] in "nljm":
            value = quantum(src, w, key)
        elif isinstance(o, qtui.QSpinBox):
            lo, hi = o.minimum(), o.maximum()
            value = src.of([lo, src.pick(lo, min(hi, lo + 6)), src.pick(lo, hi)])
        else:
            value = round(src.real(o.minimum(), o.maximum()), o.decimals())
        t = value
        spin(w, key, value)
        if len(key[1]) == 2 and (key[1][0] in "jmn"):
            value = "any"  # may be corrected
        if not (isinstance(value, str)) and not o.minimum() <= value <= o.maximum():
            value = "any"
    elif isinstance(o, qtui.QComboBox):
        i = src.pick(0, o.count() - 1)
        value = t = o.itemText(i)
        o.setCurrentIndex(i)
    elif isinstance(o, qtui.QRadioButton):
        o.click()
        value = True
    elif isinstance(o, qtui.QCheckBox):
        value = not o.isChecked()
        o.click()
    else:
        value = not o.isChecked()
        o.setChecked(value)
    vp.note("%s.%s <- %r" % (key[0], key[1], t if t != "" else value))
    after = state(w)
    if not isinstance(value, str) or isinstance(o, qtui.QComboBox):
        vp.check(same(after[key], value) or (isinstance(value, (int, float)) and not isinstance(value, bool) and after[key] == value), key, "shows", repr(after[key]), "instead of", repr(value))
    frame(key, before, after)
    return key


PARTNER = {"pairbasisSame": "pairbasisDefined", "quantizationZ": "quantizationInteratomic", "matCombined": "matSeparate", "missingCalc": "missingWhittaker", "symAuto": "symManual",
           "overlapUnperturbed": "overlapDefined", "lin": "log"}
PARTNER.update({v: k for k, v in PARTNER.items()})


W = [None, None]  # window, choice of the same basis


def frame(key, before, after):
    """An action changes nothing but what depends on it."""
    n, k = key
    dep = {key}
    if k in PARTNER:
        dep.add((n, PARTNER[k]))
    if k.startswith("delta") and k.endswith("Single"):
        dep.add((n, k.replace("Single", "Pair")))
    if k in ("species1", "species2", "python_api"):
        for i in "12" if k == "python_api" else k[-1]:
            dep |= {(a, q + i) for a in ("system", "plot") for q in "jm"}
        dep.add(("system", "samebasis"))
    if k == "python_api":
        dep |= {("system", "species1"), ("system", "species2")}
    if n == "system" and (k in FIELDS + ["theta", "exponent", "samebasis", "symAuto", "symManual", "species1", "species2", "python_api", "m1", "m2"]):
        dep |= {("system", s) for s in SYM}
    bad = {a: v for a, v in diff(before, after).items() if a not in dep}
    vp.check(not bad, "changing", key, "from", repr(before[key]), "to", repr(after[key]), "also changed", bad)
    # a wildcard stays one, and quantum numbers keep their integer part when the species changes
    if k in ("species1", "species2", "python_api"):
        for a in ("system", "plot"):
            for i in "12":
                for q in "jm":
                    b, c = before[(a, q + i)], after[(a, q + i)]
                    vp.check(widget(W[0], (a, q + i)).decimals() >= 1 or SPIN[after[("system", "species" + i)]] % 1 == 0, (a, q + i), "cannot be a half-integer any more")
                    if a == "plot" and b == ALL:
                        vp.check(c == ALL, "the wildcard", (a, q + i), "became", c, "when", key, "changed to", repr(after[key]))
                    elif before[("system", "species" + i)] == after[("system", "species" + i)]:
                        vp.check(b == c, (a, q + i), "became", c, "instead of", b, "although the species stayed", after[("system", "species" + i)])
                    else:
                        vp.check(abs(b - c) < 1, (a, q + i), "jumped from", b, "to", c)
    if n == "system":  # the choice of one basis for both atoms survives a visit of different species
        e0, e1 = (x[("system", "species1")] == x[("system", "species2")] for x in (before, after))
        if e0 and not e1:
            W[1] = before[("system", "samebasis")]
        elif e1 and not e0 and W[1] is not None:
            vp.check(after[("system", "samebasis")] == W[1], "the same basis was", W[1], "when the species were the same, but now it is", after[("system", "samebasis")])
        elif e0 and e1 and k != "samebasis":
            vp.check(after[("system", "samebasis")] == before[("system", "samebasis")], "choice of the same basis")
    if k == "python_api":
        for i in "12":
            b, c = before[("system", "species" + i)], after[("system", "species" + i)]
            vp.check(b == c or (b not in CPP and not after[key]), "species", i, "became", c, "instead of", b)


def needed(st):
    """The symmetries that hold for the parameters: (surely, possibly)."""
    v = {k[1]: x for k, x in st.items() if k[0] == "system"}
    th = math.radians(v["theta"])

    def rot(a, f):
        x, y, z = (v[a + f + c] for c in "xyz")
        return x * math.cos(th) - z * math.sin(th), y, x * math.sin(th) + z * math.cos(th), math.sqrt(x * x + y * y + z * z)
    E, B = [rot(a, "E") for a in ("min", "max")], [rot(a, "B") for a in ("min", "max")]
    exact = v["theta"] == 0

    def zero(c, r):
        return c == 0 if exact else abs(c) <= 1e-9 * max(r, 1e-300)
    perpE = not all(zero(e[0], e[3]) and zero(e[1], e[3]) for e in E)
    perpB = not all(zero(b[0], b[3]) and zero(b[1], b[3]) for b in B)
    anyE, anyB = any(e[3] != 0 for e in E), any(b[3] != 0 for b in B)
    nonzeroM = v["m1"] + v["m2"] != 0
    return {"inv": not anyE and v["samebasis"], "per": v["exponent"] <= 3 and v["samebasis"], "ref": not anyB and not perpE and not nonzeroM, "conserveM": not perpE and not perpB}, exact


def invariants(w):
    st = state(w)
    v = {k[1]: x for k, x in st.items() if k[0] == "system"}
    for n in ("system", "plot"):
        for i in "12":
            s = SPIN[v["species" + i]]
            for q in "jm":
                x = st[(n, q + i)]
                vp.check((n == "plot" and x == ALL) or (x - s) % 1 == 0, (n, q + i), "is", x, "for", v["species" + i])
    for q in "NLJM":
        a, b = v["delta%sSingle" % q], v["delta%sPair" % q]
        vp.check(a < 0 or 0 <= b <= a, "delta%sPair" % q, b, "although the single atoms are restricted to", a)
    for a, b in PARTNER.items():
        n = "plot" if a in ("overlapUnperturbed", "overlapDefined", "lin", "log") else "system"
        vp.check(st[(n, a)] != st[(n, b)], "exactly one of", a, b, "must be chosen")
    vp.check(not v["samebasis"] or v["species1"] == v["species2"], "same basis for atoms of different species")
    vp.check(v["python_api"] or (v["species1"] in CPP and v["species2"] in CPP), "species", v["species1"], v["species2"], "without the Python interface")
    if v["symAuto"]:
        need, exact = needed(st)
        for k, h in need.items():
            for x in ([k + "E", k + "O"] if k != "conserveM" else [k]):
                vp.check(not v[x] or h, "automatic symmetrization claims", x, "which does not hold")
                vp.check(v[x] or not h or not exact, "automatic symmetrization omits", x, "which holds")
    return st


def history(src, w, n):
    for _ in range(n):
        act(src, w)
        invariants(w)


# ------------------------------------------------------------------------------------------------------------- facets
@vp.facet("actions", 2500, 40000, "more than five actions")
def actions(src):
    """Histories of user actions: an action changes nothing but what depends on it, and the settings stay meaningful."""
    new_home()
    w = open_window()
    with quiet():
        invariants(w)
        n = src.size(1, 60)
        history(src, w, n)
    vp.nontrivial(n > 5)


def compare(a, b, what):
    d = diff(a, b)
    vp.check(not d, what, d)


@vp.facet("restored", 2500, 40000, "saved and current settings differ in ten values")
def restored(src):
    """A saved configuration is restored exactly, whatever the window shows when it is opened."""
    d = new_home()
    w = open_window()
    f, g = os.path.join(d, "x.sconf"), os.path.join(d, "y.pconf")
    with quiet():
        history(src, w, src.size(0, 40))
        vp.note("--- saved")
        a, u = state(w), units(w)
        qtui.QFileDialog.answer = f
        w.saveSystemConf()
        qtui.QFileDialog.answer = g
        w.savePlotConf()
        if src.flip():
            w = open_window()
        history(src, w, src.size(0, 40))
        b = state(w)
        vp.nontrivial(len(diff(a, b)) >= 10)
        vp.note("--- opened")
        qtui.QFileDialog.answer = f
        w.openSystemConf()
        W[1] = None
        compare({k: v for k, v in a.items() if k[0] == "system"}, {k: v for k, v in state(w).items() if k[0] == "system"}, "settings of the system after opening (saved, shown):")
        if src.flip():
            qtui.QFileDialog.answer = g
            w.openPlotConf()
            compare(a, state(w), "settings after opening (saved, shown):")
        vp.check(units(w) == u, "units")
        invariants(w)
        history(src, w, src.size(0, 10))


UNITS = {"energy": ("gigahertz", 1e9, [v + "E_storage" for v in ("min", "max")] + ["deltaESingle", "deltaEPair"], constants.value("atomic unit of energy") / constants.h),
         "length": ("micrometer", 1e-6, ["minR", "maxR"], constants.value("atomic unit of length")),
         "efield": ("volt/centimeter", 100.0, [f for f in FIELDS if "E" in f], constants.value("atomic unit of electric field")),
         "bfield": ("gauss", 1e-4, [f for f in FIELDS if "B" in f], constants.value("atomic unit of mag. flux density")),
         "angle": ("degree", math.pi / 180, ["theta"], 1.0)}


@vp.facet("units", 600, 8000, "a value in atomic units")
def units_of_files(src):
    """Configurations hold their values with units: the window saves its units and converts atomic units when it opens a file."""
    d = new_home()
    w = open_window()
    f = os.path.join(d, "x.sconf")
    with quiet():
        history(src, w, src.size(0, 10))
        qtui.QFileDialog.answer = f
        w.saveSystemConf()
        with open(f) as fh:
            p = json.load(fh)
        want = {}
        for name, (unit, si, ks, au) in UNITS.items():
            for k in ks:
                vp.check(p[k][1] == unit, k, "is saved in", p[k][1])
                if p[k][0] is not None and src.flip():
                    x = number(src, "positive" if k in ("minR", "maxR", "deltaESingle", "deltaEPair") else "any")
                    vp.note(k, x, "au_" + name)
                    vp.nontrivial(x != 0)
                    p[k], want[("system", k)] = [x, "au_" + name], x * au / si
        vp.check(all(p[k][1] is None for k in p if k not in sum([u[2] for u in UNITS.values()], [])), "units of numbers", p)
        with open(f, "w") as fh:
            json.dump(p, fh)
        w.openSystemConf()
        st = state(w)
        for k, x in want.items():
            vp.check(abs(st[k] - x) <= 1e-6 * abs(x), k, "shows", st[k], "instead of", x)
            q = w.systemdict[k[1]].toAU()
            vp.check(q.units == p[k[1]][1] and abs(q.magnitude - p[k[1]][0]) <= 1e-6 * abs(p[k[1]][0]), "atomic units", q.units, q.magnitude, p[k[1]])


@vp.facet("restarted", 1500, 25000, "more than five actions")
def restarted(src):
    """The next session starts with the settings of the last one, also if a configuration has been reset."""
    new_home()
    w = open_window()
    with quiet():
        n = src.size(0, 50)
        history(src, w, n)
        vp.nontrivial(n > 5)
        if src.chance(1, 5):
            vp.note("--- reset")
            w.resetSConf()
            w.resetPConf()
            W[1] = None
            home, old = dict(os.environ), state(w)
            new_home()
            fresh = open_window()
            compare(state(fresh), old, "settings after a reset (fresh program, reset):")
            for k in ("XDG_CONFIG_HOME", "XDG_CACHE_HOME", "HOME"):
                os.environ[k] = home[k]
        w.ui.tabwidget_config.setCurrentIndex(src.pick(0, 1))
        w.ui.toolbox_system.setCurrentIndex(src.pick(0, 2))
        cache = w.path_cache
        if src.chance(1, 3):
            cache = os.path.join(vp.fresh_dir(), "my cache")
            qtui.QInputDialog.answer = (cache, True)
            w.changeCacheDirectory()
        a, tabs = state(w), (w.ui.tabwidget_config.currentIndex(), w.ui.toolbox_system.currentIndex())
        w.closeEvent(None)
        vp.note("--- restarted")
        w = open_window()
        compare(a, state(w), "settings of the next session (last, next):")
        vp.check((w.ui.tabwidget_config.currentIndex(), w.ui.toolbox_system.currentIndex()) == tabs, "shown pages")
        vp.check(w.path_cache == cache and os.path.isdir(cache), "cache directory", w.path_cache, "instead of", cache)
        invariants(w)


def legal(st, w):
    """Do both states of the system (and the wanted ones of the plot) exist?"""
    def ok(n, i):
        s = SPIN[st[("system", "species%d" % i)]]
        q = [st[(n, c + str(i))] for c in "nljm"]
        hole = [n == "plot" and x == ALL for x in q]
        nn, l, j, m = q
        if not (hole[0] or hole[1]) and l >= nn:
            return False
        if not (hole[2] or hole[3]) and abs(m) > j:
            return False
        if not (hole[1] or hole[2]) and not abs(l - s) <= j <= l + s:
            return False
        return True
    return all(ok("system", i) for i in (1, 2)) and (not st[("plot", "overlapDefined")] or all(ok("plot", i) for i in (1, 2)))


def expected(st, button, cache, conf):
    """The parameters of a calculation, from what the window shows."""
    v = {k[1]: x for k, x in st.items() if k[0] == "system"}
    p = {k: v[k] for k in ["deltaESingle", "deltaLSingle", "deltaJSingle", "deltaMSingle", "deltaNSingle", "samebasis", "steps", "precision", "missingCalc", "missingWhittaker", "diamagnetism"]}
    th = math.radians(v["theta"])
    for f in ("E", "B"):
        for a in ("min", "max"):
            x, y, z = (v[a + f + c] for c in "xyz")
            for c, val in zip("xyz", (x * math.cos(th) - z * math.sin(th), y, x * math.sin(th) + z * math.cos(th)) if th != 0 else (x, y, z)):
                p[a + f + c] = val
    atoms = [1, 2] if button == 2 or v["samebasis"] else [button + 1]
    for i in atoms:
        for k in ("species", "n", "l", "j", "m"):
            p["%s%d" % (k, i)] = v["%s%d" % (k, i)]
    if button == 2:
        for q in "NLJM":
            p["delta%sPair" % q] = -1 if v["pairbasisSame"] else v["delta%sPair" % q]
        for k in ["deltaEPair", "exponent", "minR", "maxR", "sametrafo"] + SYM:
            p[k] = v[k]
        p["zerotheta"] = th == 0
        p["dd"], p["dq"], p["qq"] = v["exponent"] >= 3, v["exponent"] > 3, v["exponent"] > 3
    else:
        p["dd"] = p["dq"] = p["qq"] = True
    p["button_id"] = 2 if button == 2 else 3 if v["samebasis"] else button
    p["NUM_PROCESSES"], p["pathCache"], p["pathConf"] = v["cores"], cache, conf
    return p


@vp.facet("calculated", 4000, 60000, "a calculation was started")
def calculated(src):
    """A calculation gets exactly the parameters the window shows, or is refused because they are not meaningful."""
    new_home()
    w = open_window()
    with quiet():
        history(src, w, src.size(0, 25))
        for _ in range(src.pick(1, 3)):
            if src.chance(2, 3):
                for n in ("system", "plot"):
                    for i in (1, 2):
                        if n == "system" or widget(w, ("plot", "overlapDefined")).isChecked():
                            valid_state(src, w, n, i, src.chance(1, 6))
            history(src, w, src.size(0, 8))
            one_calculation(src, w)


def one_calculation(src, w):
    st = invariants(w)
    buttons = [w.ui.pushbutton_field1_calc, w.ui.pushbutton_field2_calc, w.ui.pushbutton_potential_calc]
    b = src.of([0, 2, 1] if not st[("system", "samebasis")] else [0, 2])
    vp.note("--- button", b)
    REC.started.clear()
    qtui.QMessageBox.shown.clear()
    buttons[b].click()
    v = {k[1]: x for k, x in st.items() if k[0] == "system"}
    largest = max(v["n1"], v["n2"]) if b == 2 or v["samebasis"] else v["n%d" % (b + 1)]
    delta = v["deltaNSingle"] if b != 2 or v["pairbasisSame"] else max(v["deltaNSingle"], v["deltaNPair"])
    must_refuse = not legal(st, w) or (v["missingWhittaker"] and largest + delta > 97)
    may_refuse = must_refuse or (v["missingWhittaker"] and max(v["n1"], v["n2"]) + max(v["deltaNSingle"], v["deltaNPair"]) > 97)
    refused = [m for k, m in qtui.QMessageBox.shown if k == "critical"]
    compare(st, state(w), "pressing a button changed the settings:")
    vp.check(len(REC.started) == (0 if refused else 1), "started", REC.started, "messages", qtui.QMessageBox.shown)
    vp.check(not must_refuse or refused, "started although the settings are not meaningful", REC.started)
    vp.check(may_refuse or not refused, "refused although the settings are meaningful:", refused)
    if refused:
        vp.check(not w.timer.isActive() and all(x.isEnabled() for x in buttons), "state after a refusal")
        return
    vp.nontrivial()
    kind, a, c = REC.started[0]
    with open(w.path_conf) as f:
        conf = json.load(f)
    want = expected(st, b, w.path_cache, w.path_conf)
    got = a if kind == "python" else conf
    vp.check(kind == ("python" if v["python_api"] else "process"), "kind of the calculation", kind)
    for p in (got, conf):
        bad = {k: (p.get(k, "missing"), want.get(k, "surplus")) for k in set(p) | set(want)
               if k not in p or k not in want or not (same(p[k], want[k]) or (isinstance(want[k], float) and abs(p[k] - want[k]) <= 1e-11 * (1e-300 + max(abs(st[("system", x)]) for x in FIELDS if k in FIELDS and x[:4] == k[:4]) if k in FIELDS else abs(want[k]))))}
        vp.check(not bad, "parameters (passed on, shown):", bad)
    if kind == "python":
        vp.check(c == v["cores"], "number of processes", c)
    else:
        y = any(v[x] != 0 for x in FIELDS if x.endswith("y"))
        vp.check(a[1:] == ["-c", w.path_conf, "-o", w.path_cache, "-t", "complex" if y else "real"], "arguments", a, "fields along y:", y)
        vp.check(c["env"].get("OMP_NUM_THREADS") == (str(v["cores"]) if v["cores"] else None), "threads", c["env"].get("OMP_NUM_THREADS"), "cores", v["cores"])
    # what the results will be compared with
    shown = [0, 1, 2] if b == 2 else [b]
    un = [v[q + i] for i in "12" for q in "nljm"]
    ov = un if st[("plot", "overlapUnperturbed")] else [st[("plot", q + i)] for i in "12" for q in "nljm"]
    for idx in shown:
        vp.check(list(w.unperturbedstate[idx]) == un and list(w.overlapstate[idx]) == ov, "states of plot", idx, list(w.unperturbedstate[idx]), list(w.overlapstate[idx]))
        cE, cB = (all(v["min" + f + x] == v["max" + f + x] for x in "xyz") for f in "EB")
        cR = v["minR"] == v["maxR"]
        if idx < 2:
            axis = "B" if cE and not cB else "E"
        else:
            axis = "R" if not cR else ("B" if not cB else "E" if not cE else "R")
        vp.check(w.xAxis[idx] == axis, "axis of plot", idx, "is", w.xAxis[idx], "instead of", axis)
        saved = json.loads(w.storage_configuration[idx][0])
        vp.check(all(same(saved[k][0], v[k]) for k in v) and set(saved) == set(v), "settings which are stored with the results")
    # meanwhile the user may change settings, and abort
    vp.check([x.isEnabled() for x in buttons] == [x is buttons[b] for x in buttons] and buttons[b].text() == "Abort calculation", "buttons during a calculation")
    history(src, w, src.size(0, 3))
    if src.flip():
        vp.note("abort")
        n = len(REC.started)
        buttons[b].click()
        vp.check(len(REC.started) == n and not w.threadIsRunning() and (kind != "process" or REC.process.done), "aborting left something running")
    w.threadFinished()
    vp.check(not w.timer.isActive() and all(x.isEnabled() for x in buttons) and "Abort" not in "".join(x.text() for x in buttons), "state after a calculation")


@vp.facet("cleared", 300, 4000, "cached results and other files")
def cleared(src):
    """Clearing the cache removes every cached result and nothing else."""
    d = new_home()
    w = open_window()
    cached = ["cache_elements.db", "cache_elements_new.db", "cache_matrix_real.db", "cache_matrix_complex.db", "cache_matrix_real", "cache_matrix_complex", "cache_matrix_real_new", "cache_matrix_complex_new"]
    other = ["result.zip", "notes.db", "my_cache_matrix_real.db", "cache_matrix.txt", "cache_elements.db.bak", "data", "mycache_matrix", "cache"]
    with quiet():
        if src.flip():
            qtui.QInputDialog.answer = (os.path.join(d, "elsewhere", "cache"), True)
            w.changeCacheDirectory()
        c, keep = w.path_cache, {}
        names = [x for x in cached + other if src.chance(2, 3)]
        vp.note(names)
        for x in names:
            p = os.path.join(c, x)
            if "." in x:
                with open(p, "w") as f:
                    f.write(x)
                keep[p] = x
            else:
                os.mkdir(p)
                for i in range(src.pick(0, 3)):
                    q = os.path.join(p, "%d.mat" % i)
                    with open(q, "w") as f:
                        f.write(str(i))
                    keep[q] = str(i)
        vp.nontrivial(any(x in cached for x in names) and any(x in other for x in names))
        with open(os.path.join(w.path_cache_wignerd, "x.npy"), "w") as f:
            f.write("x")
        w.clearCache()
    for x in names:
        vp.check(os.path.exists(os.path.join(c, x)) == (x in other), x, "removed:", not os.path.exists(os.path.join(c, x)))
    for p, t in keep.items():
        if os.path.relpath(p, c).split(os.sep)[0] in other:
            with open(p) as f:
                vp.check(f.read() == t, p)
    vp.check(os.listdir(w.path_cache_wignerd) == [], "rotation matrices")


if __name__ == "__main__":
    sys.exit(vp.main())
