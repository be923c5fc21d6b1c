"""C31: matrices, vectors and arrays cross the border between C++ and Python unchanged."""
import gc, importlib.machinery, importlib.util, os, sys, warnings, weakref
import numpy as np
from scipy import sparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp  # noqa: E402
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
_path = os.path.join(os.environ.get("VP_BUILD", "/verif/build"), "bin", "c31_npmod.so")
_loader = importlib.machinery.ExtensionFileLoader("c31_npmod", _path)
M = importlib.util.module_from_spec(importlib.util.spec_from_loader("c31_npmod", _loader))
_loader.exec_module(M)

DT = {"i": np.dtype(np.intc), "f": np.dtype(np.float32), "d": np.dtype(np.float64), "c": np.dtype(np.complex128)}
MODES = ["copy", "copy of const", "view", "view of const"]
KINDS = ["mat", "vec", "std", "arr", "ptr"]


def number(src, t):
    """One value; the special ones have to survive bit by bit."""
    if t == "i":
        return src.of([0, 1, -1, 2 ** 31 - 1, -2 ** 31, src.pick(0, 2000) - 1000])
    if t == "c":
        return complex(number(src, "d"), number(src, "d"))
    k = src.pick(0, 9)
    x = [0.0, -0.0, float("inf"), float("nan"), 1e-45 if t == "f" else 5e-324, 1.0, -1.0][k] if k < 7 else src.sym(1e3)
    return float(np.float32(x)) if t == "f" else x


def values(src, t, n):
    return np.array([number(src, t) for _ in range(n)], dtype=DT[t])


def same(a, b):
    """Bit by bit, but any NaN is as good as another."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    fa, fb = a.flatten("F"), b.flatten("F")
    if fa.dtype.kind == "c":
        fa, fb = fa.view(np.float64), fb.view(np.float64)
    if fa.dtype.kind != "f":
        return bool(np.array_equal(fa, fb))
    return bool(np.all(((fa == fb) & (np.signbit(fa) == np.signbit(fb))) | (np.isnan(fa) & np.isnan(fb))))


def tried(f, *a):
    """The result, or None if it was refused with an exception."""
    try:
        return f(*a)
    except (RuntimeError, TypeError, ValueError) as e:
        vp.check("harness:" not in str(e), "the harness is wrong:", str(e))
        return None


# ---------------------------------------------------------------- results
class Source:
    """A C++ object and the values that it has to have."""

    def __init__(self, src):
        self.kind, self.t = src.of(KINDS), src.of("ddcfi")
        lo = 0 if src.chance(1, 15) else 1
        self.rows = 2 if self.kind == "arr" else src.size(lo, 7)
        self.cols = src.size(lo, 6) if self.kind == "mat" else 1
        self.val = values(src, self.t, self.rows * self.cols)
        self.shape = (self.rows, self.cols) if self.kind == "mat" else (self.rows,)
        self.id = M.dense(self.kind, self.t, self.rows, self.cols, self.val.tobytes())
        vp.note("%s of %s %s" % (self.kind, self.t, "x".join(map(str, self.shape))))

    def array(self):
        return self.val.reshape(self.shape, order="F")

    def now(self):
        return np.frombuffer(M.peek(self.id), dtype=DT[self.t])

    def set(self, val):
        self.val = val
        M.poke(self.id, val.tobytes())


@vp.facet("results", 20000, 400000, "several conversions of an object of at least two different values")
def results(src):
    s = Source(src)
    size = s.val.size
    alive = []  # (array, mode, values that the array has to have or None: those of the source)
    for _ in range(src.size(1, 8)):
        op = src.pick(0, 5)
        if op <= 2 or not alive:
            mode = src.pick(0, 3)
            vp.note("convert:", MODES[mode])
            a = tried(M.convert, s.id, mode)
            if a is None:
                vp.check(size == 0, "an object with values was refused")
                vp.label("empty objects are refused")
                continue
            vp.check(type(a) is np.ndarray, "not an array:", str(type(a)))
            vp.check(a.dtype == DT[s.t] and a.dtype.isnative, "array of", str(a.dtype))
            vp.check(a.shape == s.shape, "shape", a.shape, "instead of", s.shape)
            vp.check(a.flags.writeable or mode == 3, "a result that is not constant must be writeable")
            vp.check(not (a.flags.writeable and mode == 3), "a view of a constant object can be written to")
            vp.check(a.flags.f_contiguous and a.flags.aligned, "storage order or alignment")
            alive.append([a, mode, s.array().copy(order="F") if mode < 2 else None])
        elif op == 3 and size:  # the C++ side changes the values
            s.set(values(src, s.t, size))
            vp.note("the object changes")
        elif op == 4 and size:  # the Python side changes one of the arrays
            e = src.of(alive)
            if not e[0].flags.writeable:
                continue
            i = src.pick(0, size - 1)
            idx, v = np.unravel_index(i, s.shape, order="F"), DT[s.t].type(number(src, s.t))
            e[0][idx] = v
            vp.note("element %d of an array (%s) changes" % (i, MODES[e[1]]))
            if e[1] < 2:
                e[2][idx] = v
            else:
                s.val = s.val.copy()
                s.val[i] = v
        else:
            alive.pop(src.pick(0, len(alive) - 1))
            gc.collect() if src.chance(1, 20) else None
            vp.note("an array is released")
        vp.check(same(s.now(), s.val), "the C++ object has the values", s.now().tolist(), "instead of", s.val.tolist())
        for a, mode, want in alive:
            want = s.array() if want is None else want
            vp.check(same(a, want), "array (%s)" % MODES[mode], a.tolist(), "instead of", want.tolist())
    # copies outlive the object
    alive = [e for e in alive if e[1] < 2]
    M.drop(s.id)
    for a, mode, want in alive:
        vp.check(same(a, want), "copy after the end of the object:", a.tolist(), "instead of", want.tolist())
    vp.nontrivial(len(set(s.val.tolist())) > 1 and len(alive) > 0)


@vp.facet("shapes", 10000, 100000, "a shape of two or three dimensions")
def shapes(src):
    """Arrays of a given shape hold exactly the given values; shapes that need other numbers of values are refused."""
    count = src.pick(1, 3)
    dims = [src.pick(1, 4) for _ in range(count)]
    n = int(np.prod(dims))
    nd = count if src.chance(9, 10) else src.pick(0, 4)
    if src.chance(1, 3):
        n = max(0, n + src.pick(0, 8) - 4)
    val = values(src, "d", n)
    vp.note("%d values as %s, %d dimensions" % (n, "x".join(map(str, dims)), nd))
    i = M.dense("ptr", "d", n, 1, val.tobytes())
    mode = src.pick(0, 3)
    vp.note(MODES[mode])
    a = tried(M.shaped, i, mode, nd, count, *(dims + [0, 0])[:3])
    fits = n == int(np.prod(dims)) and nd == count
    if a is None:
        vp.check(not fits, "a proper shape was refused")
        vp.label("refused")
    else:
        vp.check(fits, "%d values were accepted as array of shape" % n, a.shape)
        vp.check(a.shape == tuple(dims) and same(a, val.reshape(dims, order="F")), "array", a.tolist(), "instead of", val.reshape(dims, order="F").tolist())
    vp.nontrivial(count > 1)
    del a
    M.drop(i)


# ---------------------------------------------------------------- sparse results
class SparseSource:
    def __init__(self, src):
        self.t = src.of("dc")
        self.rows, self.cols = src.size(1, 9), src.size(1, 9)
        if src.chance(1, 15):
            self.rows, self.cols = src.of([(0, 0), (0, 3), (3, 0)])
        n = src.size(0 if src.chance(1, 15) else 1, 14) if self.rows * self.cols else 0
        idx = [(src.pick(0, self.rows - 1), src.pick(0, self.cols - 1)) for _ in range(n)]
        val = [(lambda x: x if np.isfinite(x) else DT[self.t].type(2))(number(src, self.t)) for _ in range(n)]
        self.how = src.of([0, 0, 0, 1, 1, 2])
        self.idx, self.val = idx, np.array(val, dtype=DT[self.t])
        self.dense = np.zeros((self.rows, self.cols), dtype=DT[self.t])
        for (i, j), v in zip(idx, self.val):
            self.dense[i, j] += v
        self.filled = len(set(idx))
        self.id = M.sparse(self.t, self.rows, self.cols, np.array(idx, dtype=np.intc).tobytes(), self.val.tobytes(), self.how)
        vp.note("sparse %s %dx%d %s %s" % (self.t, self.rows, self.cols, ["", "", "with spare space"][self.how],
                                          list(zip(idx, self.val.tolist()))))


def checked(m, s):
    vp.check(sparse.issparse(m) and m.format == "csc", "not a matrix in columns:", str(type(m)))
    vp.check(m.shape == (s.rows, s.cols), "shape", m.shape)
    vp.check(m.dtype == DT[s.t], "matrix of", str(m.dtype))
    vp.check(m.nnz == s.filled and m.data.size == s.filled, m.nnz, "entries instead of", s.filled)
    vp.check(m.indices.size == 0 or (m.indices.min() >= 0 and m.indices.max() < s.rows), "row indices", m.indices.tolist())


@vp.facet("sparse results", 20000, 400000, "the matrix has at least two entries and is not symmetric")
def sparse_results(src):
    s = SparseSource(src)
    mode = src.pick(0, 3)
    vp.note(MODES[mode])
    m = tried(M.convert, s.id, mode)
    if m is None:
        vp.check(s.filled == 0 or s.how == 2, "a matrix with entries was refused")
        vp.label("empty or not compressed matrices are refused")
        return
    checked(m, s)
    scale = np.abs(s.val).sum() if s.val.size else 0
    vp.check(np.abs(m.toarray() - s.dense).max(initial=0) <= 1e-15 * scale, "matrix", m.toarray().tolist(), "instead of", s.dense.tolist())
    c = m.tocsr() if src.flip() else m.copy()
    vp.check(np.abs((c @ np.eye(s.cols)) - s.dense).max(initial=0) <= 1e-15 * scale, "the copy of the matrix differs")
    if s.filled:
        before = m.toarray()
        raw = np.frombuffer(M.peek(s.id), dtype=DT[s.t])
        new = values(src, s.t, s.filled)
        new[~np.isfinite(new)] = 3
        M.poke(s.id, new.tobytes())
        if mode < 2:
            vp.check(same(m.toarray(), before), "a copy changes with the C++ object")
        else:
            vp.check(same(m.data, new), "a view does not follow the C++ object")
        if mode == 3:
            vp.check(not m.data.flags.writeable, "a view of a constant object can be written to")
        else:
            m.data[0] = 7
            now = np.frombuffer(M.peek(s.id), dtype=DT[s.t])
            vp.check(now[0] == (7 if mode == 2 else new[0]), "writing to the matrix (%s)" % MODES[mode])
            vp.check(same(now[1:], new[1:]), "writing to the matrix changes other entries")
            m.data[0] = new[0] if mode == 2 else raw[0]
        if mode < 2:
            M.drop(s.id)
            vp.check(same(m.toarray(), before), "a copy changes when the C++ object ends")
    vp.nontrivial(s.filled > 1 and (s.rows != s.cols or bool((s.dense != s.dense.T).any())))
    M.drop(s.id)


def parts(m):
    """The arrays that own or present the memory of a matrix."""
    out = []
    for a in (m.data, m.indices, m.indptr):
        while isinstance(a, np.ndarray):
            out.append(a)
            a = a.base
    return out


@vp.facet("released results", 6000, 80000, "a converted matrix with entries is released")
def released(src):
    """Results that are no longer used are given back, so that long calculations do not run out of memory."""
    if src.flip():
        s = SparseSource(src)
    else:
        s = Source(src)
    mode = src.pick(0, 3)
    vp.note(MODES[mode])
    for _ in range(src.pick(1, 3)):
        m = tried(M.convert, s.id, mode)
        if m is None:
            M.drop(s.id)
            return
        refs = [weakref.ref(a) for a in (parts(m) if sparse.issparse(m) else [m])]
        del m
        gc.collect() if src.chance(1, 10) else None
        dead = [r() is None for r in refs]
        vp.check(all(dead), "%d of %d arrays of a released result are still there" % (dead.count(False), len(dead)))
    vp.nontrivial()
    M.drop(s.id)


# ---------------------------------------------------------------- arguments
def foreign(src, t, shape):
    """An array as Python code would make it, and whether it has to be accepted."""
    n = int(np.prod(shape))
    how = src.pick(0, 9)
    base = values(src, t, n)
    a, plain = base.reshape(shape, order="F"), True
    if how == 3:
        a = base.reshape(shape, order="C")
    elif how == 4 and len(shape) >= 1:
        wide = np.zeros(tuple(2 * x for x in shape), dtype=DT[t], order="F")
        wide[tuple(slice(None, None, 2) for _ in shape)] = a
        a = wide[tuple(slice(None, None, 2) for _ in shape)]
    elif how == 5:
        a = a.astype(a.dtype.newbyteorder())
    elif how == 6:
        raw = np.zeros(n * a.itemsize + 1, dtype=np.uint8)
        b = raw[1:].view(DT[t]).reshape(shape, order="F")
        b[...] = a
        a = b
    elif how == 7:
        a = a.astype(src.of([np.float32, np.float64, np.complex128, np.intc, np.int64, np.float16, bool, object]), order="F")
    elif how == 8:
        a = a[::-1] if len(shape) == 1 else a.T
    elif how == 9:
        a = src.of([a.tolist(), None, 3.5, "text", np.matrix(np.atleast_2d(a)) if a.size and a.ndim < 3 else None, np.ma.masked_array(a) if a.ndim else a])
        plain = False
    if src.chance(1, 8) and isinstance(a, np.ndarray):
        a.flags.writeable = False
    vp.note("array:", ["plain", "plain", "plain", "row by row", "with gaps", "other byte order", "not aligned", "converted", "turned", "something else"][how])
    must = plain and isinstance(a, np.ndarray) and a.dtype == DT[t] and a.dtype.isnative and a.flags.f_contiguous and a.flags.aligned
    return a, must


@vp.facet("arguments", 30000, 500000, "an accepted array of at least two different values, or a refused one")
def arguments(src):
    t, kind = src.of("ddcfi"), src.of(["mat", "vec"])
    nd = src.of([0, 1, 1, 2, 2, 2, 3])
    shape = tuple(src.size(0 if src.chance(1, 6) else 1, 6) for _ in range(nd))
    a, must = foreign(src, t, shape)
    vp.note(kind, t, repr(getattr(a, "shape", type(a))), repr(getattr(a, "dtype", "")), getattr(a, "tolist", lambda: a)())
    got = tried(M.take, kind, t, a)
    limit = 2 if kind == "mat" else 1
    if got is None:
        vp.check(not (must and 1 <= a.ndim <= limit), "a proper array was refused")
        vp.label("refused")
        vp.nontrivial()
        return
    vp.check(isinstance(a, np.ndarray), "accepted as an array:", str(type(a)))
    rows, cols, raw = got
    vp.check(1 <= a.ndim <= limit, "an array of %d dimensions was accepted" % a.ndim)
    want = (a.shape[0], a.shape[1] if a.ndim == 2 else 1)
    vp.check((rows, cols) == want, "shape", (rows, cols), "instead of", want)
    have = np.frombuffer(raw, dtype=DT[t]).reshape(want, order="F")
    vp.check(same(have, np.asarray(a).astype(DT[t]).reshape(want, order="F")) and np.can_cast(a.dtype, DT[t], "equiv"),
             "values", have.tolist(), "instead of", a.tolist())
    vp.nontrivial(a.size > 1)


@vp.facet("sparse arguments", 20000, 400000, "an accepted matrix with at least two entries, or a refused one")
def sparse_arguments(src):
    t = src.of("dc")
    rows, cols = src.size(1, 8), src.size(1, 8)
    n = src.size(0, 12)
    idx = [(src.pick(0, rows - 1), src.pick(0, cols - 1)) for _ in range(n)]
    val = values(src, t, n)
    val[~np.isfinite(val)] = 2.5
    coo = sparse.coo_matrix((val, ([i for i, _ in idx], [j for _, j in idx])), shape=(rows, cols), dtype=DT[t])
    how = src.pick(0, 11)
    m, must = coo.tocsc(), True
    name = "plain"
    if how == 3:
        m, must, name = coo.tocsr(), False, "csr"
    elif how == 4:
        m, must, name = src.of([coo.toarray(), None, "text", coo, sparse.csc_array(coo), coo.tolil()]), False, "something else"
    elif how == 5:
        k = src.pick(0, 2)
        m.indices = m.indices.astype(np.int64) if k != 1 else m.indices
        m.indptr = m.indptr.astype(np.int64) if k != 0 else m.indptr
        must, name = False, "wide indices %d" % k
    elif how == 6:
        m = sparse.csc_matrix((m.data.astype(src.of([np.float32, np.float64, np.complex128, np.int64, np.intc])), m.indices, m.indptr), shape=m.shape)
        must, name = m.dtype == DT[t], "converted"
    elif how == 7:
        part = src.of(["data", "indices", "indptr"])
        x = getattr(m, part)
        setattr(m, part, x.astype(x.dtype.newbyteorder()))
        must, name = False, "other byte order of the " + part
    elif how == 8:  # rows out of order within the columns
        i, d = m.indices.copy(), m.data.copy()
        for c in range(cols):
            a, b = m.indptr[c], m.indptr[c + 1]
            p = src.shuffle(range(a, b))
            i[a:b], d[a:b] = m.indices[p], m.data[p]
        m = sparse.csc_matrix((d, i, m.indptr), shape=m.shape)
        must, name = False, "unsorted"
    elif how == 9:  # more space than entries
        m = sparse.csc_matrix((np.append(m.data, np.full(3, 9, dtype=DT[t])), np.append(m.indices, np.zeros(3, np.intc)), m.indptr), shape=m.shape)
        must, name = False, "spare space"
    elif how == 10:  # several entries in one place
        c = sorted(range(n), key=lambda k: idx[k][1])
        ptr = np.concatenate([[0], np.cumsum(np.bincount([idx[k][1] for k in c], minlength=cols))]) if n else np.zeros(cols + 1)
        m = sparse.csc_matrix((val[c], np.array([idx[k][0] for k in c], np.intc), ptr.astype(np.intc)), shape=(rows, cols))
        must, name = False, "duplicates"
    elif how == 11 and m.nnz:
        part = src.of(["data", "indices", "indptr"])
        x = getattr(m, part)
        wide = np.zeros(2 * x.size, dtype=x.dtype)
        wide[::2] = x
        setattr(m, part, wide[::2])
        must, name = False, "gaps in the " + part
    vp.note("sparse", t, name, "%dx%d" % (rows, cols), list(zip(idx, val.tolist())))
    full = coo.toarray()
    memory = [x.tobytes() for x in (m.data, m.indices, m.indptr)] if how not in (3, 4) else None
    got = tried(M.take, "sparse", t, m)
    if got is None:
        vp.check(not must, "a proper matrix was refused")
        vp.label("refused")
        vp.nontrivial()
        return
    vp.check(sparse.issparse(m) and m.format == "csc", "accepted as a matrix in columns:", str(type(m)))
    vp.check(np.can_cast(m.dtype, DT[t], "equiv"), "a matrix of", str(m.dtype), "was accepted")
    r, c, raw = got
    vp.check(r >= 0, "the matrix has entries outside of its shape")
    vp.check((r, c) == m.shape, "shape", (r, c), "instead of", m.shape)
    have = np.frombuffer(raw, dtype=DT[t]).reshape((r, c), order="F")
    want = full
    vp.check(np.abs(have - want).max(initial=0) <= 1e-14 * (np.abs(val).sum() + 1e-300), "matrix", have.tolist(), "instead of", want.tolist())
    vp.check(memory == [x.tobytes() for x in (m.data, m.indices, m.indptr)], "the argument was modified")
    vp.nontrivial(m.nnz > 1)


@vp.facet("there and back", 10000, 200000, "an object of at least two different values")
def there_and_back(src):
    if src.flip():
        s = SparseSource(src)
        kind, want, empty = "sparse", s.dense, s.filled == 0 or s.how == 2
    else:
        s = Source(src)
        kind = "mat" if s.kind == "mat" else "vec"
        want, empty = s.val.reshape((s.rows, s.cols), order="F"), s.val.size == 0
    mode = src.pick(0, 3)
    vp.note(MODES[mode])
    a = tried(M.convert, s.id, mode)
    if a is None:
        vp.check(empty, "an object with values was refused")
        M.drop(s.id)
        return
    got = tried(M.take, kind, s.t, a)
    vp.check(got is not None, "an array made in C++ was not accepted in C++")
    have = np.frombuffer(got[2], dtype=DT[s.t]).reshape(got[:2], order="F")
    if kind == "sparse":
        vp.check(have.shape == want.shape and np.abs(have - want).max(initial=0) <= 1e-15 * (np.abs(s.val).sum() + 1e-300), "came back as", have.tolist(), "instead of", want.tolist())
    else:
        vp.check(same(have, want), "came back as", have.tolist(), "instead of", want.tolist())
    vp.nontrivial(len(set(s.val.tolist())) > 1)
    del a
    M.drop(s.id)


if __name__ == "__main__":
    sys.exit(vp.main())
