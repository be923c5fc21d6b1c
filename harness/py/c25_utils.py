"""C25: numerical helpers of the front end against dense and exact computations."""
import importlib.util, math, os, sys, warnings
from fractions import Fraction
import numpy as np
from scipy import sparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp  # noqa: E402
sys.dont_write_bytecode = True
spec = importlib.util.spec_from_file_location("utils", os.path.join(os.environ.get("VP_REPO", "/repo"), "pairinteraction_gui", "utils.py"))
U = importlib.util.module_from_spec(spec)
spec.loader.exec_module(U)
warnings.simplefilter("ignore")


# ---------------------------------------------------------------- rotation matrix
def fact(x):
    return math.factorial(int(round(x)))


def wigner(j, mp, m, beta):
    """d^j_{mp,m}(beta), Wigner's sum with integer arithmetic for the coefficients (Varshalovich 4.3.1)."""
    pre = math.sqrt(fact(j + mp) * fact(j - mp) * fact(j + m) * fact(j - m))
    c, s, t = math.cos(beta / 2), math.sin(beta / 2), []
    for k in range(int(2 * j) + 1):
        a, b, d = j + m - k, mp - m + k, j - mp - k
        if min(a, b, d) < 0:
            continue
        p, q = int(round(2 * j + m - mp - 2 * k)), int(round(mp - m + 2 * k))
        t.append((-1) ** int(round(mp - m + k)) * (pre / (fact(a) * fact(k) * fact(b) * fact(d))) * c ** p * s ** q)
    return math.fsum(t)


def angle(src):
    k = src.pick(0, 7)
    if k == 0:
        return src.of([0.0, math.pi / 2, -math.pi / 2, math.pi, -math.pi, 2 * math.pi, np.pi / 2, -0.0])
    if k == 1:
        return src.sym(10)
    if k == 2:  # next to a value with a special branch
        return math.pi / 2 + src.sym(1e-6)
    if k == 3:
        return src.of([0.3, -0.3]) + src.pick(-5, 5) * src.of([2e-9, 1e-8])  # stored in different files
    if k == 4:
        return src.sym(1e-6)
    return src.real(-math.pi, math.pi)


def tol(j, beta):
    return 1e-9 * (j + 1) + 4e-15 * 2 ** (2 * j / 2 + 3) + 1e-12


def quantum(src, maxj=13):
    j = src.pick(1 if src.chance(9, 10) else 0, maxj) / 2.0
    m1, m2 = -j + src.pick(0, int(2 * j)), -j + src.pick(0, int(2 * j))
    return j, m1, m2


def typed(src, x):
    k = src.pick(0, 2)
    return np.float64(x) if k == 0 else float(x)


def same_angle(a, b):
    return "%d" % np.round(a * 1e9) == "%d" % np.round(b * 1e9)


@vp.facet("wignerd", 3000, 100000, "the angle is not a multiple of pi and j > 0")
def wignerd(src):
    d = vp.fresh_dir()
    w = U.Wignerd(d)
    n = src.size(1, 12)
    betas = [angle(src) for _ in range(src.pick(1, 3))]
    betas += [betas[0] + src.pick(-5, 5) * 2e-9 for _ in range(src.pick(0, 2))]
    js = [src.pick(1, 13) / 2.0 for _ in range(2)] if src.chance(9, 10) else [src.pick(1, 36) / 2.0, 0.0]
    log = []
    for _ in range(n):
        j, b = src.of(js), src.of(betas)
        m1, m2 = -j + src.pick(0, int(2 * j)), -j + src.pick(0, int(2 * j))
        k = src.pick(0, 9)
        if k == 0:
            w.save()
            vp.note("save")
            log.append("save")
        elif k == 1:
            if src.flip():
                w.save()
            w = U.Wignerd(d)
            vp.note("reopen")
        vp.note("%g %g %g %r" % (j, m2, m1, b))
        v = w.calc(typed(src, j), typed(src, m2), typed(src, m1), b)
        log.append((j, m2, m1, b))
        r = wigner(j, m2, m1, b)
        vp.check(isinstance(v, float) and abs(v - r) <= tol(j, b), "d^%g_{%g,%g}(%r) = %r instead of %r" % (j, m2, m1, b, v, r), "after", log[-4:])
        vp.nontrivial(j > 0 and abs(math.sin(b)) > 1e-5)


@vp.facet("wignerd-unitary", 400, 8000, "j > 0 and a generic angle")
def unitary(src):
    j, b = src.pick(0, 14) / 2.0, angle(src)
    vp.note(j, b)
    w = U.Wignerd(vp.fresh_dir())
    ms = [-j + i for i in range(int(2 * j) + 1)]
    M = np.array([[w.calc(j, a, c, b) for c in ms] for a in ms])
    vp.nontrivial(j > 0 and abs(math.sin(b)) > 1e-5)
    vp.check(np.abs(M @ M.T - np.eye(len(ms))).max() < 20 * (2 * j + 1) * tol(j, b), "not orthogonal", np.abs(M @ M.T - np.eye(len(ms))).max())
    N = np.array([[w.calc(j, a, c, -b) for c in ms] for a in ms])
    vp.check(np.abs(N - M.T).max() < 10 * tol(j, b), "d(-beta) is not the transpose")


@vp.facet("wignerd-damage", 1500, 30000, "a stored file was damaged")
def damage(src):
    d = vp.fresh_dir()
    b = angle(src)
    js = [src.pick(1, 7) / 2.0 for _ in range(2)]
    def some(w, n):
        for _ in range(n):
            j = src.of(js)
            m1, m2 = -j + src.pick(0, int(2 * j)), -j + src.pick(0, int(2 * j))
            v, r = w.calc(j, m2, m1, b), wigner(j, m2, m1, b)
            vp.check(abs(v - r) <= tol(j, b), "d^%g_{%g,%g}(%r) = %r instead of %r" % (j, m2, m1, b, v, r))
    w = U.Wignerd(d)
    some(w, src.size(1, 6))
    w.save()
    files = sorted(os.listdir(d))
    vp.check(len(files) == 1, "files", files)
    f = os.path.join(d, files[0])
    data, k = open(f, "rb").read(), src.pick(0, 5)
    if k <= 2:
        cut = src.pick(0, len(data) - 1)
        open(f, "wb").write(data[:cut])
        vp.note("truncated to", cut, "of", len(data), b, js)
    elif k == 3:
        junk = bytes(src.choice(255) for _ in range(src.size(0, 20)))
        open(f, "wb").write(junk)
        vp.note("replaced by", junk, b, js)
    elif k == 4:
        import pickle
        other = src.of([None, [1, 2], 5, "x"])
        open(f, "wb").write(pickle.dumps(other))
        vp.note("pickle of", other, b, js)
    else:
        os.unlink(f)
        vp.note("removed", b, js)
    vp.nontrivial()
    w2 = U.Wignerd(d)
    some(w2, src.size(1, 6))
    w2.save()
    some(U.Wignerd(d), src.size(1, 6))
    if src.flip():
        some(w, 2)
        w.save()
        some(U.Wignerd(d), 3)


@vp.facet("wignerd-interrupted", 300, 5000, "always")
def interrupted(src):
    """Saving fails half way (disk full): what was stored before is still usable."""
    d = vp.fresh_dir()
    b, j = angle(src), src.pick(1, 7) / 2.0
    w = U.Wignerd(d)
    for i in range(src.size(1, 5)):
        w.calc(j, -j + src.pick(0, int(2 * j)), -j + src.pick(0, int(2 * j)), b)
    if src.flip():
        w.save()
    w.calc(j, j, -j, b)
    w.calc(j + 1, j, -j, b)
    vp.note(b, j)
    vp.nontrivial()
    pid = os.fork()
    if pid == 0:
        import resource, signal
        try:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (src.pick(0, 60), resource.RLIM_INFINITY))
            w.save()
        except Exception:
            pass
        os._exit(0)
    os.waitpid(pid, 0)
    w2 = U.Wignerd(d)
    for _ in range(5):
        m1, m2 = -j + src.pick(0, int(2 * j)), -j + src.pick(0, int(2 * j))
        v, r = w2.calc(j, m2, m1, b), wigner(j, m2, m1, b)
        vp.check(abs(v - r) <= tol(j, b), "d^%g_{%g,%g}(%r) = %r instead of %r" % (j, m2, m1, b, v, r))


# ---------------------------------------------------------------- sparse matrices
def matrix(src, r, c, fmt, nonneg=False):
    kind = src.pick(0, 4)
    ent = {}
    for i in range(r):
        for j in range(c):
            if {0: False, 1: True, 2: src.chance(1, 4), 3: i == j, 4: src.flip() and i % 2 == 0}[kind]:
                v = float(src.pick(0 if nonneg else -3, 3)) if src.flip() else src.real(0, 1) if nonneg else src.sym(2)
                ent[(i, j)] = v
    order = src.shuffle(sorted(ent))
    dt = src.of([float, float, complex, np.float32, int]) if not nonneg else float
    # stored zeros and unsorted indices are legal
    major = 0 if fmt == "csr" else 1
    rows = [[] for _ in range(r if major == 0 else c)]
    for e in order:
        rows[e[major]].append((e[1 - major], ent[e]))
    if src.flip():
        rows = [sorted(x) for x in rows]
    idx = src.of([np.int32, np.int64])
    ptr = np.cumsum([0] + [len(x) for x in rows]).astype(idx)
    data = np.array([v for x in rows for _, v in x]).astype(dt)
    ind = np.array([i for x in rows for i, _ in x]).astype(idx)
    m = (sparse.csr_matrix if fmt == "csr" else sparse.csc_matrix)((data, ind, ptr), shape=(r, c))
    if src.flip():
        m.has_sorted_indices  # noqa: B018  (looked up and remembered by scipy)
    if src.flip():
        m.has_canonical_format  # noqa: B018
    return m


def dense(m):
    return np.asarray(m.toarray())


def well_formed(m):
    m.check_format(full_check=True)
    n = m.shape[0 if m.format == "csr" else 1]
    vp.check(len(m.indptr) == n + 1 and m.indptr[-1] == len(m.data) == len(m.indices) == m.nnz, "inconsistent arrays")


def behaves(m, want, what):
    """The matrix is what it should be in every way it can be looked at."""
    vp.check(m.shape == want.shape and np.array_equal(dense(m), want), what, ":", dense(m).tolist(), "instead of", want.tolist())
    well_formed(m)
    z = m
    n = want.shape[1 if m.format == "csr" else 0]
    if n and want.shape[0] and want.shape[1]:  # a second matrix with other stored elements
        o = np.zeros_like(want)
        o[:, 0] += 1
        o[0, :] += 1
        o[want.shape[0] - 1, n // 2 if m.format == "csr" else 0] += 1
        so = sparse.csr_matrix(o) if m.format == "csr" else sparse.csc_matrix(o)
        vp.check(np.array_equal(dense(z + so), want + o), what, ": sum with another matrix is wrong:", dense(z + so).tolist(), "instead of", (want + o).tolist())
        vp.check(np.array_equal(dense(z.multiply(so)), want * o), what, ": product with another matrix is wrong")
    vp.check(np.array_equal(dense(z + z), 2 * want), what, ": sum is wrong")
    vp.check(np.array_equal(dense(z.multiply(z)), want * want), what, ": elementwise product is wrong")
    for i in range(want.shape[0]):
        for j in range(want.shape[1]):
            vp.check(z[i, j] == want[i, j], what, ": element", (i, j))
    k = z.copy()
    k.sum_duplicates()
    t = z.sorted_indices()
    for y, name in ((k, "sum_duplicates"), (t, "sorted_indices")):
        vp.check(all(np.all(np.diff(y.indices[y.indptr[i]:y.indptr[i + 1]]) > 0) for i in range(len(y.indptr) - 1)) and np.array_equal(dense(y), want),
                 what, ": %s does not sort" % name)
    vp.check(np.array_equal(dense(z.T), want.T), what, ": transpose is wrong")
    if want.size:
        x = np.arange(1, want.shape[1] + 1)
        vp.check(np.allclose(z @ x, want @ x), what, ": product is wrong")


def append(src, fmt):
    ax = 0 if fmt == "csr" else 1
    f = U.csr_vappend if fmt == "csr" else U.csc_happend
    n = src.size(0, 6)
    shape = lambda: (src.size(0, 5), n) if ax == 0 else (n, src.size(0, 5))  # noqa: E731
    a = matrix(src, *shape(), fmt)
    want = dense(a)
    log = [a.shape]
    for _ in range(src.size(1, 4)):
        b = matrix(src, *shape(), fmt)
        if src.chance(1, 10):
            b = a
        db = dense(b)
        before = (b.data.copy(), b.indices.copy(), b.indptr.copy(), b.shape)
        f(a, b)
        log.append(b.shape)
        want = np.concatenate((want, db), axis=ax)
        if b is not a:
            vp.check(all(np.array_equal(x, y) for x, y in zip(before, (b.data, b.indices, b.indptr))) and b.shape == before[3], "second matrix was modified")
        vp.nontrivial(a.nnz > 0 and db.size > 0)
        if src.flip():
            behaves(a, want, "appended")
        if b is not a and b.nnz:  # no shared memory
            b.data[:] = 77
    vp.note(fmt, log, want.tolist())
    behaves(a, want, "appended")
    if src.chance(1, 4):
        bad = matrix(src, *((1, n + 1) if ax == 0 else (n + 1, 1)), fmt)
        try:
            f(a, bad)
        except ValueError:
            behaves(a, want, "after a refused append")
            return
        vp.check(False, "dimension mismatch accepted")


@vp.facet("append-rows", 4000, 100000, "the second part is not empty and something is stored")
def append_rows(src):
    append(src, "csr")


@vp.facet("append-columns", 4000, 100000, "the second part is not empty and something is stored")
def append_columns(src):
    append(src, "csc")


@vp.facet("keepmax", 5000, 150000, "some row has more than one stored value")
def keepmax(src):
    a = matrix(src, src.size(0, 7), src.size(0, 7), "csr", nonneg=src.chance(3, 4))
    d = dense(a)
    if np.iscomplexobj(d):
        raise vp.Discard()
    vp.note(a.dtype, d.tolist(), a.indices.tolist(), a.indptr.tolist())
    vp.nontrivial(a.nnz > 0 and max(np.diff(a.indptr)) > 1)
    ret = U.csr_keepmax(a)
    a = a if ret is None else ret
    well_formed(a)
    g = dense(a)
    vp.check(g.shape == d.shape, "shape changed")
    for i in range(d.shape[0]):
        if d.shape[1] and d[i].max() > 0:
            w = np.where(d[i] == d[i].max(), d[i], 0)
            vp.check(np.array_equal(g[i], w), "row", i, d[i].tolist(), "became", g[i].tolist())
        else:  # no positive value: nothing but the largest stored value may remain
            vp.check(all(x == 0 or x == d[i][d[i] != 0].max() for x in g[i]), "row", i, d[i].tolist(), "became", g[i].tolist())
    vp.check(not np.any(a.data == 0), "zeros are still stored")


# ---------------------------------------------------------------- scaling
def data(src):
    shape = src.of([(src.size(1, 12),), (src.size(1, 4), src.size(1, 4))])
    n = int(np.prod(shape))
    k = src.pick(0, 4)
    gen = {0: lambda: float(src.pick(-4, 4)), 1: lambda: src.sym(1e3), 2: lambda: 1e6 + src.real(0, 1e-3), 3: lambda: src.sym(1e-200), 4: lambda: src.pick(0, 9)}[k]
    x = np.array([gen() for _ in range(n)]).reshape(shape)
    if k != 4 and src.chance(1, 4):
        x.flat[src.pick(0, n - 1)] = np.nan
    return x


def ulp(x):
    return abs(x) * 2.3e-16


@vp.facet("normscale", 5000, 150000, "the data are not all equal")
def normscale(src):
    x = data(src)
    fin = x[~np.isnan(x)]
    if fin.size == 0:
        raise vp.Discard()
    kw = {}
    if src.flip():
        kw["cmin"] = src.of([float(fin.min()), float(fin.min()) - 1.0, 0.0, 0.5])
    if src.flip():
        kw["cmax"] = src.of([float(fin.max()), float(fin.max()) + 1.0, 0.0, 2.0])
    lo, hi = kw.get("cmin", float(fin.min())), kw.get("cmax", float(fin.max()))
    vp.note(x.tolist(), kw)
    vp.nontrivial(fin.min() < fin.max())
    keep = x.copy()
    g = U.normscale(x, **kw)
    vp.check(np.array_equal(x, keep, equal_nan=True), "input modified")
    vp.check(np.shape(g) == x.shape, "shape")
    span = Fraction(hi) - Fraction(lo)
    span = Fraction(float(hi) - float(lo)) or 1 if span else 1
    for v, r in zip(x.flat, np.asarray(g).flat):
        if np.isnan(v):
            vp.check(np.isnan(r), "missing value became", r)
        else:
            w = float((Fraction(float(v)) - Fraction(lo)) / span)
            vp.check(abs(r - w) <= 1e-14 * abs(w) + 5e-16 * (abs(float(v)) + abs(lo)) / float(abs(span)), "value", v, "scaled to", r, "instead of", w)


@vp.facet("bytescale", 5000, 150000, "the data are not all equal")
def bytescale(src):
    x = data(src)
    x = np.where(np.isnan(x), 0, x) if np.isnan(x).any() else x
    kw = {}
    if src.flip():
        kw["cmin"] = src.of([float(x.min()), float(x.min()) - 1.0])
    if src.flip():
        kw["cmax"] = src.of([float(x.max()), float(x.max()) + 1.0])
    if src.flip():
        kw["high"] = src.of([1, 9, 255, 499, 1000])
    if src.flip() and kw.get("high", 255) > 2:
        kw["low"] = src.of([0, 1, 2])
    lo, hi, low, high = kw.get("cmin", float(x.min())), kw.get("cmax", float(x.max())), kw.get("low", 0), kw.get("high", 255)
    vp.note(x.tolist(), kw)
    vp.nontrivial(x.min() < x.max())
    keep = x.copy()
    g = U.bytescale(x, **kw)
    vp.check(np.array_equal(x, keep), "input modified")
    vp.check(np.shape(g) == x.shape and np.issubdtype(g.dtype, np.integer), "shape or type")
    vp.check(g.min() >= low and g.max() <= high, "outside of [%d,%d]:" % (low, high), g.tolist())
    o = np.argsort(x.flat, kind="stable")
    vp.check(np.all(np.diff(np.asarray(g).flat[o]) >= 0), "not monotonous", g.tolist())
    if hi > lo and 1e6 * (hi - lo) > 1e-6 * abs(hi):
        for v, r in zip(x.flat, g.flat):
            w = (float(v) - lo) / (hi - lo) * (high - low + 1) + low  # the range is divided into equal parts
            vp.check(w - 1 - 1e-3 <= r <= w + 1e-3, "value", v, "scaled to", r, "instead of", w)
            vp.check(v != lo or r == low, "smallest value scaled to", r)
            vp.check(v != hi or r == high, "largest value scaled to", r)


if __name__ == "__main__":
    sys.exit(vp.main())
