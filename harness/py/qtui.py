"""Stand-ins for PyQt5, pyqtgraph and pint which are sufficient to run the main window of the front end.  The widgets with
values follow the documented behaviour of Qt (limits, decimals, exclusive buttons, order of the signals, sender()); they are
created from the window's own description (plotter.ui).  Everything that only draws is a dummy."""
import decimal, inspect, os, shutil, sqlite3, sys, types
import xml.etree.ElementTree as ET
import guistub

SENDERS = []


# ---------------------------------------------------------------------------------------------------------- dummies
class DummyType(type):
    def __getattr__(cls, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Dummy()


class Dummy(metaclass=DummyType):
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Dummy()

    def __call__(self, *a, **k):
        return Dummy()

    def __getitem__(self, k):
        return Dummy()

    def __iter__(self):
        return iter(())


class DummyModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = type(name, (Dummy,), {}) if name[0].isupper() else Dummy()
        setattr(self, name, v)
        return v


# ---------------------------------------------------------------------------------------------------------- signals
class BoundSignal:
    def __init__(self, owner):
        self.owner, self.slots, self.other = owner, [], None

    def __getitem__(self, overload):  # currentIndexChanged[str]
        if overload is str:
            if self.other is None:
                self.other = BoundSignal(self.owner)
            return self.other
        return self

    def connect(self, f):
        self.slots.append(f)

    def emit(self, *a):
        for f in list(self.slots):
            # declared slots get the declared arguments; as many of them are passed on as the function takes
            try:
                ps = inspect.signature(f).parameters.values()
                n = len(a) if any(p.kind == p.VAR_POSITIONAL for p in ps) else len([p for p in ps if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)])
            except ValueError:
                n = 0
            n = min([n, len(a)] + ([f._slot_args] if hasattr(f, "_slot_args") else []))
            SENDERS.append(self.owner)
            try:
                f(*a[:n])
            finally:
                SENDERS.pop()


class SignalDescription:
    def __init__(self, *types_):
        pass

    def __set_name__(self, owner, name):
        self.name = "_sig_" + name

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        if self.name not in obj.__dict__:
            obj.__dict__[self.name] = BoundSignal(obj)
        return obj.__dict__[self.name]


def pyqtSlot(*types_, **k):
    def deco(f):
        f._slot_args = len(types_)
        return f
    return deco


# ---------------------------------------------------------------------------------------------------------- widgets
class QObject:
    def __init__(self, parent=None, *a):
        self._name = ""

    def objectName(self):
        return self._name

    def sender(self):
        return SENDERS[-1] if SENDERS else None


class QWidget(QObject):
    def __init__(self, parent=None, *a):
        super().__init__()
        self._enabled = True

    def setEnabled(self, b):
        if not isinstance(b, bool):
            raise TypeError("bool expected")
        self._enabled = b

    def isEnabled(self):
        return self._enabled

    def __getattr__(self, name):  # everything which only concerns the appearance
        if name.startswith("_"):
            raise AttributeError(name)
        return Dummy()


class QMainWindow(QWidget):
    def closeEvent(self, event):
        pass


class QAbstractButton(QWidget):
    toggled = SignalDescription(bool)
    clicked = SignalDescription(bool)

    def __init__(self, *a):
        super().__init__(*a)
        self._checked, self._group, self._text = False, None, ""

    def isChecked(self):
        return self._checked

    def text(self):
        return self._text

    def setText(self, t):
        self._text = t

    def _others(self):
        return [b for b in self._group if b is not self] if self._group is not None else []

    def _state_set(self):
        pass

    def setChecked(self, b):
        if not isinstance(b, (bool, int)) and type(b).__name__ not in ("bool_", "bool"):
            raise TypeError("setChecked(self, bool): unexpected type %s" % type(b))
        b = bool(b)
        if b == self._checked:
            return
        if not b and self._group is not None and not any(o._checked for o in self._others()):
            return  # the checked button of an exclusive group cannot be unchecked
        self._checked = b
        self._state_set()
        if b:
            for o in self._others():
                if o._checked:
                    o._checked = False
                    o._state_set()
                    o.toggled.emit(False)
        self.toggled.emit(b)

    def click(self):
        if self._enabled:
            self._click()
            self.clicked.emit(self._checked)

    def _click(self):
        pass


class QPushButton(QAbstractButton):
    pass


class QRadioButton(QAbstractButton):
    def _click(self):
        self.setChecked(True)


class QCheckBox(QAbstractButton):
    stateChanged = SignalDescription(int)

    def checkState(self):
        return 2 if self._checked else 0

    def setCheckState(self, s):
        if s not in (0, 2):
            raise TypeError("check state")
        self.setChecked(s == 2)

    def _state_set(self):
        self.stateChanged.emit(self.checkState())

    def _click(self):
        self.setChecked(not self._checked)


class QGroupBox(QWidget):
    toggled = SignalDescription(bool)

    def __init__(self, *a):
        super().__init__(*a)
        self._checked, self._checkable = True, False

    def isChecked(self):
        return self._checkable and self._checked

    def setChecked(self, b):
        if self._checkable and bool(b) != self._checked:
            self._checked = bool(b)
            self.toggled.emit(self._checked)


class QButtonGroup(QObject):
    def __init__(self, *a):
        super().__init__()
        self._members = []

    def addButton(self, b):
        if b._group is not None and b in b._group:
            b._group.remove(b)
        self._members.append(b)
        b._group = self._members
        if b._checked:
            for o in b._others():
                if o._checked:
                    o._checked = False
                    o.toggled.emit(False)


class _Spin(QWidget):
    valueChanged = SignalDescription(int)
    editingFinished = SignalDescription()

    def __init__(self, *a):
        super().__init__(*a)
        self._value, self._min, self._max = 0, 0, 99

    def value(self):
        return self._value

    def minimum(self):
        return self._min

    def maximum(self):
        return self._max

    def setRange(self, lo, hi):
        lo, hi = self._round(lo), self._round(hi)
        self._min, self._max = lo, max(lo, hi)
        self.setValue(self._value)

    def setMinimum(self, x):
        x = self._round(self._conv(x))
        self.setRange(x, max(x, self._max))

    def setMaximum(self, x):
        x = self._round(self._conv(x))
        self.setRange(min(x, self._min), x)

    def setValue(self, x):
        x = min(max(self._round(self._conv(x)), self._min), self._max)
        if x != self._value:
            self._value = x
            self.valueChanged.emit(x)


class QSpinBox(_Spin):
    def _conv(self, x):
        if isinstance(x, float):
            raise TypeError("setValue(self, int): argument 1 has unexpected type 'float'")
        return int(x)

    def _round(self, x):
        return x


class QDoubleSpinBox(_Spin):
    def __init__(self, *a):
        super().__init__(*a)
        self._value, self._min, self._max, self._decimals = 0.0, 0.0, 99.99, 2
        self._actual = (0.0, 99.99)

    def _conv(self, x):
        return float(x)

    def _round(self, x):
        return float(decimal.Decimal(repr(float(x))).quantize(decimal.Decimal(1).scaleb(-self._decimals), decimal.ROUND_HALF_UP))

    def decimals(self):
        return self._decimals

    def setRange(self, lo, hi):
        self._actual = (lo, hi)
        super().setRange(lo, hi)

    def setMinimum(self, x):
        self._actual = (x, self._actual[1])
        super().setRange(x, max(self._round(x), self._max))

    def setMaximum(self, x):
        self._actual = (self._actual[0], x)
        super().setRange(min(self._round(x), self._min), x)

    def setDecimals(self, n):
        if isinstance(n, float):
            raise TypeError("int expected")
        self._decimals = n
        self.setRange(*self._actual)
        self.setValue(self._value)


class QComboBox(QWidget):
    currentIndexChanged = SignalDescription(int)

    def __init__(self, *a):
        super().__init__(*a)
        self._items, self._index = [], -1

    def currentIndex(self):
        return self._index

    def currentText(self):
        return self._items[self._index] if self._index >= 0 else ""

    def count(self):
        return len(self._items)

    def itemText(self, i):
        return self._items[i]

    def findText(self, t):
        if not isinstance(t, str):
            raise TypeError("str expected")
        return self._items.index(t) if t in self._items else -1

    def setCurrentIndex(self, i):
        if not 0 <= i < len(self._items):
            i = -1
        if i != self._index:
            self._index = i
            self.currentIndexChanged.emit(i)
            self.currentIndexChanged[str].emit(self.currentText())

    def addItem(self, t):
        self._items.append(t)
        if len(self._items) == 1:
            self.setCurrentIndex(0)

    def clear(self):
        self._items = []
        if self._index != -1:
            self._index = -1
            self.currentIndexChanged.emit(-1)
            self.currentIndexChanged[str].emit("")


class QLineEdit(QWidget):
    textChanged = SignalDescription(str)
    editingFinished = SignalDescription()
    Normal = 0

    def __init__(self, *a):
        super().__init__(*a)
        self._text, self._validator = "", None

    def text(self):
        return self._text

    def setText(self, t):
        if not isinstance(t, str):
            raise TypeError("str expected")
        if t != self._text:
            self._text = t
            self.textChanged.emit(t)

    def setValidator(self, v):
        self._validator = v

    def type_in(self, text):
        """A user selects everything, types the text and leaves the field."""
        t = ""
        for c in text:
            if self._validator is None or self._validator.validate(t + c, len(t) + 1)[0] != QValidator.Invalid:
                t += c
        self.setText(t)
        if self._validator is None:
            self.editingFinished.emit()
            return
        if self._validator.validate(self._text, len(self._text))[0] != QValidator.Acceptable:
            f = self._validator.fixup(self._text)
            if isinstance(f, str):
                self.setText(f)
        if self._validator.validate(self._text, len(self._text))[0] == QValidator.Acceptable:
            self.editingFinished.emit()


class QTabWidget(QWidget):
    def __init__(self, *a):
        super().__init__(*a)
        self._tabs, self._index = [], -1

    def count(self):
        return len(self._tabs)

    def widget(self, i):
        return self._tabs[i]

    def currentIndex(self):
        return self._index

    def setCurrentIndex(self, i):
        if 0 <= i < len(self._tabs):
            self._index = i

    def removeTab(self, i):
        del self._tabs[i]
        if self._index > i or self._index == len(self._tabs):
            self._index -= 1

    def insertTab(self, i, w, label=""):
        self._tabs.insert(i, w)
        if self._index >= i:
            self._index += 1

    def setTabText(self, i, t):
        pass


class GradientWidget(QWidget):
    def __init__(self, *a):
        super().__init__(*a)
        self._state = {"mode": "rgb", "ticks": [[0.0, [0, 0, 0, 255]], [1.0, [255, 255, 255, 255]]]}

    def saveState(self):
        return dict(self._state)

    def restoreState(self, s):
        self._state = dict(s)


class QStatusBar(QWidget):
    def __init__(self, *a):
        super().__init__(*a)
        self._message = ""

    def showMessage(self, m):
        self._message = m

    def currentMessage(self):
        return self._message


class QTimer(QObject):
    timeout = SignalDescription()

    def __init__(self, *a):
        super().__init__()
        self._active = False

    def isActive(self):
        return self._active

    def start(self, *a):
        self._active = True

    def stop(self):
        self._active = False


class QValidator(QObject):
    Invalid, Intermediate, Acceptable = 0, 1, 2


class QDoubleValidator(QValidator):
    """Scientific notation in the C locale, no limits."""

    def validate(self, s, pos):
        import re
        if re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", s):
            return (2, s, pos)
        if re.fullmatch(r"[+-]?(\d*\.?\d*)([eE][+-]?\d*)?", s) and not re.fullmatch(r"[+-]?\.?[eE].*", s):
            return (1, s, pos)
        return (0, s, pos)

    def fixup(self, s):
        return s


class QMessageBox(QWidget):
    shown = []
    Cancel, Ok, Information = 1, 2, 3

    @staticmethod
    def critical(parent, title, text):
        QMessageBox.shown.append(("critical", text))

    @staticmethod
    def warning(parent, title, text):
        QMessageBox.shown.append(("warning", text))

    def exec(self):
        QMessageBox.shown.append(("question", ""))
        return 2


class QFileDialog:
    answer = ""

    @staticmethod
    def getSaveFileName(*a):
        return QFileDialog.answer, ""

    getOpenFileName = getSaveFileName


class QInputDialog:
    answer = ("", False)

    @staticmethod
    def getText(*a):
        return QInputDialog.answer


class QApplication(Dummy):
    @staticmethod
    def focusWidget():
        return None


# --------------------------------------------------------------------------------------------- the window's description
CLASSES = {c.__name__: c for c in (QSpinBox, QDoubleSpinBox, QComboBox, QLineEdit, QCheckBox, QRadioButton, QPushButton, QGroupBox, QTabWidget, GradientWidget, QStatusBar)}
CLASSES["QToolBox"] = QTabWidget


def build(ui, root):
    auto = {}

    def visit(e, parent, parent_object):
        for w in e:
            if w.tag == "widget":
                cls = CLASSES.get(w.get("class"), QWidget)
                o = cls()
                o._name = w.get("name")
                setattr(ui, w.get("name"), o)
                if isinstance(parent_object, QTabWidget):
                    parent_object._tabs.append(o)
                    parent_object._index = max(parent_object._index, 0)
                if isinstance(o, QComboBox):
                    for i in w.findall("item"):
                        o.addItem(i.find("property/string").text)
                props = {p.get("name"): p[0].text for p in w.findall("property")}
                if "decimals" in props:
                    o.setDecimals(int(props["decimals"]))
                conv = int if isinstance(o, QSpinBox) else float
                for k, f in (("minimum", "setMinimum"), ("maximum", "setMaximum"), ("value", "setValue")):
                    if k in props and isinstance(o, _Spin):
                        getattr(o, f)(conv(props[k]))
                if isinstance(o, QComboBox) and "currentIndex" in props:
                    o.setCurrentIndex(int(props["currentIndex"]))
                if isinstance(o, (QLineEdit, QAbstractButton)) and props.get("text"):
                    o.setText(props["text"])
                if "checkable" in props and isinstance(o, QGroupBox):
                    o._checkable = props["checkable"] == "true"
                if isinstance(o, QRadioButton):
                    o._group = auto.setdefault(parent, [])
                    o._group.append(o)
                if "checked" in props and isinstance(o, (QAbstractButton, QGroupBox)):
                    o.setChecked(props["checked"] == "true")
                if "enabled" in props:
                    o.setEnabled(props["enabled"] == "true")
                visit(w, w.get("name"), o)
            else:
                visit(w, parent, parent_object)

    visit(root, None, None)


# ----------------------------------------------------------------------------------------------------------------- pint
BASE = {"m": (1.0, "L"), "micrometer": (1e-6, "L"), "gigahertz": (1e9, "F"), "volt/centimeter": (100.0, "E"), "V m^-1": (1.0, "E"), "gauss": (1e-4, "B"), "T": (1.0, "B"),
        "degree": (3.14159265358979323846 / 180, ""), "1": (1.0, ""), "dimensionless": (1.0, ""), "J": (1.0, "J"), "J Hz^-1": (1.0, "J/F"), "J s": (1.0, "J/F")}


class PQ:
    def __init__(self, magnitude, units="dimensionless"):
        if isinstance(magnitude, str):
            magnitude, units = 1, magnitude
        if isinstance(units, PQ):
            self.magnitude, self.factor, self.dim, self.name = magnitude * units.magnitude, units.factor, units.dim, units.name
        else:
            self.magnitude, self.name = magnitude, units
            self.factor, self.dim = BASE[units]

    @property
    def dimensionality(self):
        return "[%s]" % self.dim

    def _new(self, magnitude, factor, dim):
        q = PQ.__new__(PQ)
        q.magnitude, q.factor, q.dim, q.name = magnitude, factor, dim, None
        return q

    def __truediv__(self, o):
        dim = "" if self.dim == o.dim else {("J", "J/F"): "F"}[(self.dim, o.dim)]
        return self._new(self.magnitude / o.magnitude, self.factor / o.factor, dim)

    def __mul__(self, x):
        return self._new(self.magnitude * x, self.factor, self.dim)

    __rmul__ = __mul__

    def to(self, name):
        f, dim = BASE[str(name)]
        if dim != self.dim:
            raise ValueError("cannot convert %s to %s" % (self.dimensionality, name))
        if name == self.name:
            return self
        return PQ(self.magnitude * (self.factor / f), name)


# -------------------------------------------------------------------------------------------------------------- install
def install(directory):
    """Returns the module of the main window, which is imported from a copy in the directory."""
    import locale
    guistub.install()
    core, gui, widgets, printing = (DummyModule("PyQt5." + n) for n in ("QtCore", "QtGui", "QtWidgets", "QtPrintSupport"))
    old = sys.modules["PyQt5.QtCore"]
    core.QThread, core.QObject, core.QTimer, core.pyqtSlot, core.pyqtSignal = old.QThread, QObject, QTimer, pyqtSlot, SignalDescription
    core.Qt = types.SimpleNamespace(Checked=2, Unchecked=0, PartiallyChecked=1, AlignCenter=0, AlignHCenter=0, AlignLeft=0)
    gui.QValidator, gui.QDoubleValidator = QValidator, QDoubleValidator
    for c in (QWidget, QMainWindow, QPushButton, QRadioButton, QCheckBox, QGroupBox, QButtonGroup, QSpinBox, QDoubleSpinBox, QComboBox, QLineEdit, QTabWidget, QMessageBox, QFileDialog,
              QInputDialog, QApplication):
        setattr(widgets, c.__name__, c)
    qt = sys.modules["PyQt5"]
    sip = types.ModuleType("PyQt5.sip")
    sip.isdeleted = lambda o: True
    for n, m in (("QtCore", core), ("QtGui", gui), ("QtWidgets", widgets), ("QtPrintSupport", printing), ("sip", sip)):
        setattr(qt, n, m)
        sys.modules["PyQt5." + n] = m
    sys.modules["sip"] = sip
    pg = DummyModule("pyqtgraph")
    pg.__path__ = []
    pg.Qt = types.SimpleNamespace(QtWidgets=widgets, QtGui=gui, QtCore=core)
    pg.graphicsItems = types.SimpleNamespace(GradientEditorItem=types.SimpleNamespace(Gradients={"grey": {"mode": "rgb", "ticks": [(0.0, (0, 0, 0, 255))]}}))
    sys.modules["pyqtgraph"] = pg
    sys.modules["pyqtgraph.exporters"] = pg.exporters = DummyModule("pyqtgraph.exporters")
    pint = types.ModuleType("pint")
    pint.UnitRegistry = lambda *a, **k: types.SimpleNamespace(Quantity=PQ)
    sys.modules["pint"] = pint

    shutil.copytree(os.path.join(guistub.REPO, "pairinteraction_gui"), os.path.join(directory, "pairinteraction_gui"), ignore=shutil.ignore_patterns("__pycache__"))
    lib = os.path.join(directory, "pairinteraction")
    os.makedirs(os.path.join(lib, "databases"))
    open(os.path.join(lib, "pairinteraction-backend-deprecated"), "w").close()
    con = sqlite3.connect(os.path.join(lib, "databases", "quantum_defects.db"))
    with open(os.path.join(guistub.REPO, "pairinteraction", "databases", "quantum_defects.sql")) as f:
        con.executescript(f.read())
    con.commit()
    con.close()

    root = ET.parse(os.path.join(directory, "pairinteraction_gui", "plotter.ui")).getroot()
    plotter, version = types.ModuleType("pairinteraction_gui.plotter"), types.ModuleType("pairinteraction_gui.version")

    class Ui_plotwindow(Dummy):
        def setupUi(self, window):
            build(self, root)

    plotter.Ui_plotwindow = Ui_plotwindow
    version.version_program, version.version_settings, version.version_cache = "0", "1", "1"
    sys.modules["pairinteraction_gui.plotter"], sys.modules["pairinteraction_gui.version"] = plotter, version
    setlocale = locale.setlocale
    locale.setlocale = lambda c, l=None: "C" if l in ("en_US.UTF-8", "English") else setlocale(c, l)
    sys.path.insert(0, directory)
    for d in ("XDG_CONFIG_HOME", "XDG_CACHE_HOME"):
        os.environ[d] = os.path.join(directory, d)
    os.environ["HOME"] = directory
    from pairinteraction_gui import app
    if not app.__file__.startswith(directory):
        raise RuntimeError("wrong copy " + app.__file__)
    return app
