"""Builds the check executables from /repo's working tree (mirrored by content into /verif/build)."""
import filecmp, os, re, shutil, subprocess, sys, fcntl
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO_OVERRIDE", "/repo")
BUILD = os.environ.get("VP_BUILD_OVERRIDE", os.path.join(VERIF, "build"))
SRC = os.path.join(BUILD, "src")      # mirror of /repo/pairinteraction
GEN = os.path.join(BUILD, "gen")      # generated headers


class BuildError(Exception):
    pass


DEFS = ["-DEIGEN_USE_BLAS", "-DEIGEN_USE_LAPACKE", "-DFMT_HEADER_ONLY=1", "-DWITH_GSL",
        "-Dlapack_complex_double=std::complex<double>", "-Dlapack_complex_float=std::complex<float>"]
INC = ["-I" + SRC, "-I" + GEN, "-I" + os.path.join(HERE, "include"), "-isystem", "/usr/include/eigen3"]
LIBS = "-lopenblas -llapacke -lsqlite3 -lgsl -lgslcblas -lstdc++fs -lpthread"
# variants of the library objects: opt = as shipped (NDEBUG); san = address+undefined sanitizer, assertions on
VAR = {
    "opt": "-O1 -g0 -DNDEBUG",
    "san": "-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=vptr,alignment -fno-omit-frame-pointer",
    "tsan": "-O1 -g1 -DNDEBUG -fsanitize=thread",
}
LIGHT = ["Basisnames", "ConfParser", "GreenTensor", "Hamiltonianmatrix", "QuantumDefect", "StateOld", "WignerD", "Wavefunction"]
FULL = LIGHT + ["MatrixElementCache", "MatrixElements", "State", "SystemBase", "SystemOne", "SystemTwo",
                "PerturbativeInteraction", "HamiltonianOne", "HamiltonianTwo", "Interface"]
CACHE_ = ["QuantumDefect", "Wavefunction", "WignerD", "State", "StateOld", "MatrixElementCache"]
SYSTEM = CACHE_ + ["SystemBase", "SystemOne", "SystemTwo", "GreenTensor", "PerturbativeInteraction"]

# executable -> (sources in harness/src, library variant, library units)
BINS = {}
# extension modules for python3-vt: name -> source in harness/src, headers of /repo only
MODULES = {}
# property -> list of executables ("bin:x") and python scripts ("py:x")
CHECKS = {}
exec(open(os.path.join(HERE, "targets.py")).read())


def mirror():
    os.makedirs(SRC, exist_ok=True)
    os.makedirs(GEN, exist_ok=True)
    root = os.path.join(REPO, "pairinteraction")
    keep = set()
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in dirs if x not in ("unit_test", "benchmarks", "__pycache__")]
        rel = os.path.relpath(d, root)
        for f in files:
            if not (f.endswith((".hpp", ".cpp", ".h", ".in", ".sql", ".hxx", ".inl", ".ipp", ".tpp", ".cc")) or "." not in f):
                continue
            s = os.path.join(d, f)
            t = os.path.normpath(os.path.join(SRC, rel, f))
            keep.add(t)
            os.makedirs(os.path.dirname(t), exist_ok=True)
            if not os.path.exists(t) or not filecmp.cmp(s, t, shallow=False):
                tmp = t + ".tmp~"
                with open(s, "rb") as a, open(tmp, "wb") as b:
                    b.write(a.read())
                os.replace(tmp, t)
    for d, _, files in os.walk(SRC):
        for f in files:
            t = os.path.join(d, f)
            if t not in keep:
                os.unlink(t)
    # headers that cmake's configure_file would write
    def put(name, text):
        t = os.path.join(GEN, name)
        if not os.path.exists(t) or open(t).read() != text:
            open(t, "w").write(text)
    sql = open(os.path.join(root, "databases/quantum_defects.sql")).read()
    tmpl = open(os.path.join(root, "EmbeddedDatabase.hpp.in")).read()
    put("EmbeddedDatabase.hpp", tmpl.replace("@QUANTUM_DEFECT_DATABASE_CONTENT@", sql))
    ver = open(os.path.join(root, "version.hpp.in")).read()
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    def var(n, dflt):
        m = re.search(r"set\(\s*%s\s+\"?([^\s\")]+)\"?" % n, cm)
        return m.group(1) if m else dflt
    def sub(m):
        n = m.group(1)
        return var(n + "_DEFAULT", "v0.0.0") if n == "VERSION_SOFTWARE" else var(n, "")
    put("version.hpp", re.sub(r"@(\w+)@", sub, ver))


def python_includes():
    """Where the headers of python3-vt and its numpy are."""
    r = subprocess.run([shutil.which("python3-vt") or "python3", "-c", "import sysconfig, numpy; print(sysconfig.get_paths()['include']); print(numpy.get_include())"],
                       capture_output=True, text=True)
    inc = r.stdout.split()
    if len(inc) != 2:
        raise BuildError("no numpy: " + r.stderr)
    if not os.path.exists(os.path.join(inc[0], "Python.h")):
        inc[0] = "/usr/include/python3.12"
    return inc


def ninja_file():
    L = ["ninja_required_version = 1.8", "defs = " + " ".join("'%s'" % d for d in DEFS), "inc = " + " ".join(INC),
         "base = -std=c++17 -fopenmp -fPIC -w",
         "rule cxx", "  command = g++ $base $var $defs $inc -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "  description = CXX $out",
         "rule link", "  command = g++ -fopenmp $var $in -o $out " + LIBS, "  description = LINK $out", ""]
    done = set()
    for b, (srcs, var, units) in sorted(BINS.items()):
        objs = []
        for u in units:
            o = os.path.join(BUILD, "obj", var, u + ".o")
            if o not in done:
                done.add(o)
                L += ["build %s: cxx %s" % (o, os.path.join(SRC, u + ".cpp")), "  var = " + VAR[var]]
            objs.append(o)
        for s in list(srcs) + ([] if b.endswith("_driver") else ["../include/vp_main.cpp"]):
            o = os.path.join(BUILD, "obj", var, "h_" + os.path.basename(s) + ".o")
            if o not in done:
                done.add(o)
                L += ["build %s: cxx %s" % (o, os.path.join(HERE, "src", s)), "  var = " + VAR[var]]
            objs.append(o)
        L += ["build %s: link %s" % (os.path.join(BUILD, "bin", b), " ".join(objs)), "  var = " + VAR[var]]
    if MODULES:
        inc, npinc = python_includes()
        L += ["rule module", "  command = g++ -shared $base -O1 -DNDEBUG $defs -I%s -isystem %s $inc -MMD -MF $out.d $in -o $out" % (inc, npinc),
              "  depfile = $out.d", "  deps = gcc", "  description = MODULE $out"]
    for m, src in sorted(MODULES.items()):
        L += ["build %s: module %s" % (os.path.join(BUILD, "bin", m), os.path.join(HERE, "src", src))]
    path = os.path.join(BUILD, "build.ninja")
    text = "\n".join(L) + "\n"
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


def build(targets):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            mirror()
        except OSError as e:
            raise BuildError(str(e))
        ninja_file()
        if targets:
            r = subprocess.run(["ninja", "-C", BUILD, "-j", "8"] + [os.path.join(BUILD, "bin", t) for t in targets], capture_output=True, text=True,
                               env=dict(os.environ, PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"))
            if r.returncode != 0:
                err = [l for l in (r.stdout + r.stderr).splitlines() if "error" in l or "undefined reference" in l]
                raise BuildError("\n".join(err[:25]))


def build_for(prop):
    targets = []
    execs = []
    for x in CHECKS[prop]:
        kind, name = x.split(":")
        if kind == "bin":
            targets.append(name)
            execs.append([os.path.join(BUILD, "bin", name)])
        elif kind == "dep":
            targets.append(name)
        else:
            execs.append([shutil.which("python3-vt") or "python3", os.path.join(HERE, "py", name)])
    build(targets)
    return execs, ""


if __name__ == "__main__":
    try:
        build(sys.argv[1:] or sorted(BINS) + sorted(MODULES))
    except BuildError as e:
        print(e)
        sys.exit(1)
