"""C26: the reader of the backend's output, driven with generated protocol histories; reference: a direct fold over the messages."""
import contextlib, io, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp, guistub  # noqa: E402
guistub.install()
import types  # noqa: E402


class _Bound:
    def __init__(self):
        self.emitted, self.slots = [], []

    def emit(self, *a):
        self.emitted.append(a)
        for s in self.slots:
            s(*a)

    def connect(self, f):
        self.slots.append(f)


class _Signal:  # like PyQt5: declared at the class, one signal per object
    def __init__(self, *t):
        self.t = t

    def __set_name__(self, owner, name):
        self.name = "_sig_" + name

    def __get__(self, obj, owner):
        if obj is None:
            return self
        if not hasattr(obj, self.name):
            setattr(obj, self.name, _Bound())
        return getattr(obj, self.name)


sys.modules["PyQt5.QtCore"].pyqtSignal = _Signal
sip = types.ModuleType("PyQt5.sip")
sip.isdeleted = lambda o: True
sys.modules["PyQt5.sip"] = sys.modules["sip"] = sip
sys.modules["PyQt5"].sip = sip
from pairinteraction_gui.worker import AllQueues, Worker  # noqa: E402

TYPES = ["Field map of first atom: ", "Field map of second atom: ", "Pair potential: ", "Field maps: "]


class Model:
    def __init__(self):
        self.basis, self.data = [[], [], []], [[], [], []]
        self.type = self.total = self.current = self.dim = 0
        self.head = self.progress = self.message = ""
        self.end, self.errors, self.text = False, [], ""

    def msg(self, m):
        k = m[0]
        if k == "TYP":
            self.type, self.head, self.progress = m[1], TYPES[m[1]], "construct matrices"
        elif k == "BAS":
            self.progress = "construct matrices using %d basis vectors" % m[1]
        elif k == "STA":
            self.basis[self.type % 3].append(m[1])
        elif k == "TOT":
            self.total, self.current = m[1], 0
        elif k in ("DIM", "OUT"):
            if k == "DIM":
                self.dim = m[1]
            else:
                self.current += 1
                self.data[self.type % 3].append([m[2], m[3], m[4], m[5]])
            self.progress = "diagonalize %d x %d matrix, %d of %d matrices processed" % (self.dim, self.dim, self.current, self.total)
        elif k == "ERR":
            self.errors.append(m[1].strip())
        elif k == "END":
            self.end = True
        else:
            self.text += m[1]
        self.message = self.head + self.progress


def line(m):
    k = m[0]
    if k in ("TYP", "BAS", "TOT", "DIM"):
        return ">>%s%7d\n" % (k, m[1])
    if k == "STA":
        return ">>STA %s%s\n" % (m[1], m[2])
    if k == "OUT":
        return ">>OUT%7d%7d%7d%7d %s%s\n" % (m[1:5] + (m[5], m[6]))
    if k == "ERR":
        return ">>ERR%s\n" % m[1]
    if k == "END":
        return ">>END\n"
    return m[1]


def path(src):
    return src.of(["/tmp/a.csv", "/tmp/dir with space/b.csv", "/tmp/ü/c.csv", "x", "C:\\Users\\x y\\out.mat", "/a>>OUT/b", "/tmp/\U0001f600.csv", "/t/>>END"]) + src.of(["", "1", ".json"])


def number(src):
    return src.of([0, 1, 7, 42, 999, 123456, 9999999, 1000000])


def text(src):
    return src.of(["One-atom Hamiltonian, 3. Hamiltonian loaded\n", "\n", " >>END\n", ">> TYP\n", ">>TY\n", "x>>OUT      1\n", ">>XYZ 3\n", "Bitte wählen: größer\n", ">>end\n",
                   "100 % done {} {0}\n", ">>>ERR\n", "\t>>TOT      3\n", "\r\n", "a" * 300 + "\n"])


def run_of_backend(src, log):
    """A history as the backend can produce it: parts (one per type), each with basis, totals and steps."""
    out = []
    parts = src.of([[0], [1], [2], [3], [0, 1], [0, 1, 2], [3, 2], [0, 2], [2]])
    for t in parts:
        out.append(("TYP", t))
        if src.chance(9, 10):
            out += [("BAS", number(src)), ("STA", path(src), src.of(["", " "]))]
        blocks, steps = src.pick(1, 3), src.size(0, 5)
        out.append(("TOT", blocks * steps))
        off = src.of([0, 0, 0, 10 ** 5, 9999990])
        todo = src.shuffle([(s + off, b + (off if off == 9999990 else 0)) for s in range(steps) for b in range(blocks)])
        blocks += off * (off == 9999990)
        opened = []
        for s, b in todo:
            out.append(("DIM", number(src)))
            opened.append((s, b))
            if src.flip():  # several threads: other steps in between
                continue
            while opened:
                s, b = opened.pop(0)
                out.append(("OUT", min(9999999, s * blocks + b + 1), s, blocks, b, path(src), src.of(["", " "])))
        for s, b in opened:
            out.append(("OUT", min(9999999, s * blocks + b + 1), s, blocks, b, path(src), src.of(["", " "])))
    return out


def history(src):
    """Messages with ordinary text and errors in between, ending with END, or cut off."""
    msgs = run_of_backend(src, None) if src.chance(4, 5) else []
    for _ in range(src.size(0, 6)):
        m = ("TXT", text(src)) if src.chance(3, 4) else ("ERR", src.of(["The data type does not fit.", "", " x ", "größer", "a: {}", "%s %d"]))
        msgs.insert(src.pick(0, len(msgs)), m)
    if src.chance(1, 6):
        msgs.insert(src.pick(0, len(msgs)), ("TXT", "\x1b[0m\x00\n"))
    end = src.chance(2, 3)
    if end:
        msgs.append(("END",))
        for _ in range(src.size(0, 2)):
            msgs.append(("TXT", text(src)))
    elif msgs and src.flip():
        msgs = msgs[:src.pick(0, len(msgs) - 1)]
    return msgs, end


def drain(q):
    out = []
    while not q.empty():
        out.append(q.get())
    return out


def compare(q, m, data=True):
    vp.check([list(x) for x in q.basisfiles] == m.basis, "basis files", q.basisfiles, "instead of", m.basis)
    if data:
        got = [drain(x) for x in q.dataqueues]
        vp.check([[list(e) for e in x] for x in got] == m.data, "results", got, "instead of", m.data)
    vp.check((q.total, q.current, q.dim, q._type) == (m.total, m.current, m.dim, m.type), "total, current, dim, type are", (q.total, q.current, q.dim, q._type),
             "instead of", (m.total, m.current, m.dim, m.type))
    vp.check(q.finishedgracefully == m.end, "finished", q.finishedgracefully)
    vp.check(q.message == m.message, "message", repr(q.message), "instead of", repr(m.message))


@vp.facet("messages", 20000, 200000, "the history contains results of at least one part")
def messages(src):
    msgs, end = history(src)
    vp.note(msgs)
    q, m = AllQueues(), Model()
    out = io.StringIO()
    seen = []
    with contextlib.redirect_stdout(out):
        for i, x in enumerate(msgs):
            s = line(x)
            q.processOneLine(s.encode("utf-8") if src.flip() else s)
            if x[0] != "ERR":
                m.msg(x)
            else:
                m.message = m.head + m.progress
            seen.append(x)
            if src.chance(1, 4):
                compare(q, m, data=False)
            if src.chance(1, 6):  # the front end takes what is there, then more arrives
                k = src.pick(0, 2)
                got = drain(q.dataqueues[k])
                vp.check([list(e) for e in got] == m.data[k], "results of part", k, got, "instead of", m.data[k])
                m.data[k] = []
            if src.chance(1, 40):
                q.clear()
                m = Model()
                out.truncate(0)
                out.seek(0)
    compare(q, m)
    if not any(x[0] == "ERR" for x in seen):  # errors nobody listens to may be printed
        vp.check(out.getvalue() == m.text, "text passed on:", repr(out.getvalue()), "instead of", repr(m.text))
    vp.nontrivial(any(x[0] == "OUT" for x in msgs))


class Pipe(io.BytesIO):
    closed_by_reader = False

    def close(self):
        self.closed_by_reader = True
        super().close()


class Ascii(io.TextIOWrapper):
    pass


@vp.facet("reader", 20000, 150000, "text or errors between results")
def reader(src):
    q = AllQueues()
    w = Worker(q)
    shown = []
    w.criticalsignal.connect(lambda s: shown.append(s))
    for rnd in range(src.pick(1, 2)):
        msgs, end = history(src)
        raw = [line(x).encode("utf-8") for x in msgs]
        invalid = src.chance(1, 5)
        if invalid:  # text in another encoding
            i = src.pick(0, len(raw))
            junk = src.of([b"gr\xf6\xdfer\n", b"\xff\xfe\n", b"\xc3\n", b"\x80>>END\n"])
            raw.insert(i, junk)
            msgs.insert(i, ("TXT", junk.decode("latin-1")))
        if not end and raw and src.flip() and len(raw[-1]) > 1 and msgs[-1][0] in ("STA", "OUT", "TXT", "ERR"):
            raw[-1] = raw[-1][:-1]  # the backend ended in between
        vp.note(raw)
        p = Pipe(b"".join(raw))
        ascii_only = src.chance(1, 6)
        b = io.BytesIO()
        out = io.TextIOWrapper(b, encoding="ascii" if ascii_only else "utf-8", newline="\n")
        shown.clear()
        taken = [[], [], []]
        grab = src.flip()

        # the front end looks at the results while the reader is working
        cut = None
        with contextlib.redirect_stdout(out):
            if grab or src.chance(1, 6):
                class Watch(Pipe):
                    n = 0

                    def readline(self, *a):
                        s = super().readline(*a)
                        if grab:
                            for k in range(3):
                                taken[k] += drain(q.dataqueues[k])
                        Watch.n += 1
                        if cut is not None and Watch.n > cut:
                            w.exiting = True
                        return s
                p = Watch(b"".join(raw))
                if not grab:
                    cut = src.pick(0, max(1, len(raw)))
            w.execute(p)
        out.flush()
        m, stop = Model(), False
        for i, x in enumerate(msgs):
            if cut is not None and i >= cut:
                break
            if m.end:
                break
            m.msg(x)
        vp.check(p.closed_by_reader, "output of the backend was not closed")
        vp.check(shown == m.errors, "errors shown:", shown, "instead of", m.errors)
        if m.end:
            got = [[list(e) for e in taken[k] + drain(q.dataqueues[k])] for k in range(3)]
            vp.check(got == m.data, "results", got, "instead of", m.data)
            compare(q, m, data=False)
        else:  # an aborted calculation leaves nothing behind
            compare(q, Model())
            if grab and not invalid:
                for k in range(3):
                    g = [list(e) for e in taken[k]]
                    vp.check(g == m.data[k][:len(g)] and len(g) >= len(m.data[k]) - 1, "results before the end", g, "instead of", m.data[k])
        text_ = b.getvalue().decode("ascii" if ascii_only else "utf-8", "replace")
        t = m.text
        if invalid or ascii_only:  # what cannot be shown is replaced, nothing else is lost
            text_, t = ("".join(c for c in y if ord(c) < 128 and c != "?") for y in (text_, t))
        vp.check(text_ == t or text_ + "\n" == t, "text passed on:", repr(text_), "instead of", repr(t))
        vp.nontrivial(any(x[0] == "OUT" for x in msgs) and any(x[0] in ("ERR", "TXT") for x in msgs))
        q.clear()


if __name__ == "__main__":
    sys.exit(vp.main())
