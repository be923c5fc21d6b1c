"""C12, front end: the GUI's reader sees exactly the matrices the backend stored, and rejects damaged files."""
import importlib.util, os, struct, subprocess, sys, warnings
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp  # noqa: E402

spec = importlib.util.spec_from_file_location("loader", os.path.join(os.environ.get("VP_REPO", "/repo"), "pairinteraction_gui", "loader.py"))
loader = importlib.util.module_from_spec(spec)
spec.loader.exec_module(loader)
warnings.simplefilter("ignore")
_helper = None


def write(path, cplx, mats):
    global _helper
    if _helper is None or _helper[1] != os.getpid():
        _helper = (subprocess.Popen([os.path.join(os.environ["VP_BUILD"], "bin", "c12"), "--helper"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
                                    preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (-1, -1))), os.getpid())
    h = _helper[0]
    out = ["c" if cplx else "r", path]
    for (r, c, ent) in mats:
        out += ["%d %d %d" % (r, c, len(ent))]
        for (i, j, v) in ent:
            out.append("%d %d %s %s" % (i, j, float(v.real).hex(), float(v.imag).hex()))
    h.stdin.write("\n".join(out) + "\n")
    h.stdin.flush()
    vp.check(h.stdout.readline().strip() == "ok", "the backend could not store the matrix")


def value(src, cplx):
    def x():
        k = src.pick(0, 4)
        if k == 0:
            return float(src.pick(-3, 3))
        if k == 1:
            return src.of([1e-310, 1.7976931348623157e308, -1e300, 0.1, 1 / 3.0])
        return src.sym(5)
    re = x()
    return complex(re, x() if cplx and src.flip() and np.isfinite(re) else 0.0)


def gen(src, r, c, cplx):
    kind, ent = src.pick(0, 6), []
    for j in range(c):
        for i in range(r):
            ins = {0: False, 1: not ent and src.chance(1, r * c), 2: j == c - 1, 3: j == 0, 4: src.chance(1, 5) if kind == 4 else False, 5: i == j, 6: True}[kind]
            if ins:
                ent.append((i, j, value(src, cplx)))
    return (r, c, ent)


def dense(m):
    a = np.zeros((m[0], m[1]), dtype=complex)
    for i, j, v in m[2]:
        a[i, j] = v
    return a


def case(src, maxn=9):
    cplx = src.flip()
    n, c = src.size(0, maxn), src.size(0, maxn)
    e, b = gen(src, n, n, cplx), gen(src, c, n, cplx)
    vp.note("complex" if cplx else "real", "entries", e, "basis", b)
    f = os.path.join(vp.scratch(), "m%d" % os.getpid())
    write(f + ".mat", cplx, (e, b))
    return f, cplx, e, b


def equal(a, b):
    return a.shape == b.shape and np.array_equal(np.real(a), np.real(b), equal_nan=True) and np.array_equal(np.imag(a), np.imag(b), equal_nan=True)


@vp.facet("reader-roundtrip", 3000, 60000, "at least one stored entry")
def roundtrip(src):
    f, cplx, e, b = case(src)
    vp.nontrivial(len(e[2]) + len(b[2]) > 0)
    es = loader.Eigensystem(f)
    for what in src.of([["basis"], ["energies", "basis"], ["basis", "energies"], ["energies", "energies", "basis", "basis", "energies"], ["energies"]]):
        if what == "basis":
            got = es.basis
            vp.check(got.shape == (b[0], b[1]), "basis has the shape", got.shape)
            vp.check(equal(got.toarray(), dense(b)), "basis read as", got.toarray())
            vp.check(got.nnz == len(b[2]), "stored entries", got.nnz)
            vp.check(cplx or not np.iscomplexobj(got), "real basis read as complex")
        else:
            got = np.asarray(es.energies)
            vp.check(equal(got, np.real(np.diag(dense(e)))), "energies read as", got)
    with open(f + ".mat", "rb") as fh:
        bl = loader.BinaryLoader()
        m1, m2 = bl.readMatrix(fh), bl.readMatrix(fh)
        vp.check(fh.read() == b"", "the file is longer than two matrices")
    vp.check(equal(m1.toarray(), dense(e)) and equal(m2.toarray(), dense(b)), "matrices read as", m1.toarray(), m2.toarray())


def inspect(m):
    """Structure of an accepted matrix, by hand."""
    r, c = m.shape
    outer, inner = (c, r) if m.format == "csc" else (r, c)
    p, i = np.asarray(m.indptr), np.asarray(m.indices)
    vp.check(len(p) == outer + 1 and p[0] == 0 and np.all(np.diff(p) >= 0) and p[-1] <= len(m.data) and p[-1] <= len(i), "accepted column pointers", p, "shape", m.shape, "data", len(m.data))
    vp.check(len(i) == 0 or (i.min() >= 0 and i.max() < inner), "accepted indices", i, "shape", m.shape)


def read_all(f):
    """True if the reader accepted the file; whatever it accepts must be consistent."""
    try:
        es = loader.Eigensystem(f)
        es.energies
        es.basis
        with open(f + ".mat", "rb") as fh:
            bl = loader.BinaryLoader()
            ms = [bl.readMatrix(fh), bl.readMatrix(fh)]
    except Exception:
        return False
    for m in ms:
        inspect(m)
    return True


@vp.facet("reader-truncation", 300, 5000, "always")
def truncation(src):
    f, cplx, e, b = case(src, 4)
    data = open(f + ".mat", "rb").read()
    g = f + "t"
    for cut in range(0, len(data), 1 + len(data) // 120):
        with open(g + ".mat", "wb") as fh:
            fh.write(data[:cut])
        es = loader.Eigensystem(g)
        try:
            es.energies
            es.basis
        except Exception:
            continue
        vp.check(False, "file of", len(data), "bytes truncated to", cut, "was accepted")
    vp.nontrivial()


@vp.facet("reader-damage", 4000, 80000, "always")
def damage(src):
    f, cplx, e, b = case(src, 6)
    d = bytearray(open(f + ".mat", "rb").read())
    log = []
    for _ in range(src.size(1, 5)):
        if not d:
            break
        i, k = src.pick(0, len(d) - 1), src.pick(0, 5)
        if k == 0:
            d[i] ^= 1 << src.pick(0, 7)
        elif k == 1:
            d[i] = src.of([0, 255, 127, 128, 1])
        elif k == 2:
            d[i:i] = bytes(src.choice(255) for _ in range(src.size(1, 9)))
        elif k == 3:
            del d[i:i + src.size(1, 9)]
        else:  # a number behind a type marker
            pos = [u + 2 for u in range(len(d) - 6) if struct.unpack_from("<H", d, u)[0] in (1032, 1064, 1132, 1164)]
            if pos:
                u = src.of(pos) + 4 * src.pick(0, 5)
                if u + 4 <= len(d):
                    v = struct.unpack_from("<i", d, u)[0]
                    v = src.of([v + 1, v - 1, -1, 2 ** 31 - 1, -2 ** 31, v + 1000, 0])
                    struct.pack_into("<i", d, u, max(-2 ** 31, min(2 ** 31 - 1, v)))
        log.append((k, i))
    vp.note(log)
    g = f + "d"
    with open(g + ".mat", "wb") as fh:
        fh.write(d)
    vp.label("accepted" if read_all(g) else "rejected")
    vp.nontrivial()


@vp.facet("reader-missing", 8, 8, "always")
def missing(src):
    vp.note(src.pick(0, 100))
    vp.nontrivial()
    es = loader.Eigensystem(os.path.join(vp.scratch(), "none"))
    for what in ("energies", "basis", "params"):
        try:
            getattr(es, what)
        except Exception:
            continue
        vp.check(False, "missing file accepted for", what)


if __name__ == "__main__":
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, resource.RLIM_INFINITY))  # sizes in damaged files are arbitrary
    sys.exit(vp.main())
