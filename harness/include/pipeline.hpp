// Runs of the calculation pipeline (the command-line program) in a scratch directory.
#ifndef PIPELINE_HPP
#define PIPELINE_HPP
#include "Hamiltonianmatrix.hpp"
#include "sysmodel.hpp"
#include "vp.hpp"

#include <chrono>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

namespace pl {
using sm::cd;
using sm::Mat;
using Conf = std::map<std::string, std::string>;

struct Block {
    int step = -1, nblocks = 0, block = -1;
    std::string path;
    Eigen::VectorXd e;
    Mat v;                    // coordinates x vectors
    Conf params;              // content of the .json file
};
struct Section {
    int type = -1, bas = -1, tot = -1;
    std::vector<std::vector<double>> states;
    std::vector<Block> out;   // in the order of their number
    std::vector<int> dim;
};
struct Run {
    int status = -1;          // exit code, or minus the number of the signal
    bool end = false, err = false;
    long ops = 0;
    std::string text, errors;
    std::vector<Section> sections;
    const Section *find(int type) const {
        for (auto &s : sections) {
            if (s.type == type) {
                return &s;
            }
        }
        return nullptr;
    }
};
struct Crash {
    long at = -1;
    std::string mode = "before";
    std::string below; // sub-directory of the cache directory, with trailing part of the name
};

inline std::string slurp(const std::string &p) {
    std::ifstream f(p, std::ios::binary);
    std::ostringstream os;
    os << f.rdbuf();
    return os.str();
}
inline void spit(const std::string &p, const std::string &s) {
    std::ofstream f(p, std::ios::binary | std::ios::trunc);
    f << s;
    if (!f.flush()) {
        throw std::runtime_error("harness: cannot write " + p);
    }
}
inline std::vector<std::string> list(const std::string &dir) {
    std::vector<std::string> v;
    if (DIR *d = opendir(dir.c_str())) {
        while (dirent *e = readdir(d)) {
            if (std::string(e->d_name) != "." && std::string(e->d_name) != "..") {
                v.emplace_back(e->d_name);
            }
        }
        closedir(d);
    }
    std::sort(v.begin(), v.end());
    return v;
}
inline std::string driver() {
    char buf[4096];
    ssize_t n = readlink("/proc/self/exe", buf, sizeof buf - 1);
    std::string s(buf, n > 0 ? static_cast<size_t>(n) : 0);
    return s.substr(0, s.rfind('/')) + "/pipeline_driver";
}
inline void write_conf(const std::string &path, const Conf &c) {
    std::string s = "{";
    for (auto &p : c) {
        s += (s.size() > 1 ? ",\n" : "\n") + ("\"" + p.first + "\": \"" + p.second + "\"");
    }
    spit(path, s + "\n}\n");
}
inline Conf read_params(const std::string &path) { // the flat files written by the program
    Conf c;
    std::istringstream is(slurp(path));
    std::string line;
    while (std::getline(is, line)) {
        std::vector<size_t> q;
        for (size_t i = 0; i < line.size(); ++i) {
            if (line[i] == '"') {
                q.push_back(i);
            }
        }
        if (q.size() == 4) {
            c[line.substr(q[0] + 1, q[1] - q[0] - 1)] = line.substr(q[2] + 1, q[3] - q[2] - 1);
        }
    }
    return c;
}
template <typename S>
inline void load(Block &b) {
    Hamiltonianmatrix<S> m;
    VP_CHECK(m.load(b.path + ".mat"), "result file " << b.path << ".mat of a finished run cannot be read");
    Mat e = sm::dense<S>(m.entries());
    b.v = sm::dense<S>(m.basis());
    b.e = e.diagonal().real();
    Mat off = e;
    off.diagonal().setZero();
    VP_CHECK(sm::maxabs(off) == 0 && sm::maxabs(Mat(e.diagonal().imag().cast<cd>())) <= 1e-9 * (1 + sm::maxabs(e)), "result file " << b.path << ".mat is not diagonal");
    VP_CHECK(b.v.cols() == b.e.size(), "result file with " << b.v.cols() << " vectors and " << b.e.size() << " energies");
    b.params = read_params(b.path + ".json");
}
// dir: directory of the run (configuration, temporary files), cache: directory of the cache
inline Run run(const Conf &conf, const std::string &cache, bool complex, int threads, const Crash &crash = {}, bool read = true) {
    std::string dir = vp::fresh_dir("run");
    mkdir((dir + "/tmp").c_str(), 0700);
    write_conf(dir + "/conf.json", conf);
    std::string exe = driver(), c = dir + "/conf.json", type = complex ? "complex" : "real", out = dir + "/out", err = dir + "/err";
    std::vector<std::string> env = {"TMPDIR=" + dir + "/tmp", "OMP_NUM_THREADS=" + std::to_string(threads), "PATH=/usr/bin:/bin", "OMP_WAIT_POLICY=passive",
                                    "VP_CRASH_DIR=" + cache + crash.below, "VP_CRASH_COUNT=" + dir + "/ops", "HOME=" + dir};
    if (crash.at > 0) {
        env.push_back("VP_CRASH_AT=" + std::to_string(crash.at));
        env.push_back("VP_CRASH_MODE=" + crash.mode);
    }
    std::vector<std::string> arg = {exe, "-c", c, "-o", cache, "-t", type};
    std::vector<char *> ep, ap;
    for (auto &s : env) {
        ep.push_back(&s[0]);
    }
    ep.push_back(nullptr);
    for (auto &s : arg) {
        ap.push_back(&s[0]);
    }
    ap.push_back(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(o, 1);
        dup2(e, 2);
        execve(exe.c_str(), ap.data(), ep.data());
        _exit(127);
    }
    if (pid < 0) {
        throw std::runtime_error("harness: fork failed");
    }
    Run r;
    int st = 0;
    auto t0 = std::chrono::steady_clock::now();
    int wait = 1;
    while (waitpid(pid, &st, WNOHANG) == 0) {
        std::this_thread::sleep_for(std::chrono::milliseconds(wait));
        wait = std::min(wait + 1, 10);
        if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(240)) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            vp::fail("the pipeline does not end within 240 s");
        }
    }
    r.status = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
    if (r.status == 127) {
        throw std::runtime_error("harness: pipeline_driver cannot be started");
    }
    r.text = slurp(out);
    r.errors = slurp(err);
    std::string ops = slurp(dir + "/ops");
    r.ops = ops.empty() ? -1 : atol(ops.c_str());
    std::istringstream is(r.text);
    std::string line;
    bool ordered = true;
    while (std::getline(is, line)) {
        if (line.compare(0, 2, ">>") != 0) {
            continue;
        }
        std::string key = line.substr(2, 3);
        std::istringstream v(line.substr(5));
        if (key == "TYP") {
            r.sections.emplace_back();
            v >> r.sections.back().type;
        } else if (key == "END") {
            r.end = true;
        } else if (key == "ERR") {
            r.err = true;
        } else if (r.sections.empty()) {
            ordered = false;
        } else if (key == "BAS") {
            v >> r.sections.back().bas;
        } else if (key == "TOT") {
            v >> r.sections.back().tot;
        } else if (key == "DIM") {
            int d = -1;
            v >> d;
            r.sections.back().dim.push_back(d);
        } else if (key == "STA") {
            std::string p;
            v >> p;
            std::ifstream f(p);
            while (std::getline(f, line)) {
                std::istringstream row(line);
                std::vector<double> x;
                double y;
                while (row >> y) {
                    x.push_back(y);
                }
                r.sections.back().states.push_back(x);
            }
        } else if (key == "OUT") {
            size_t number = 0;
            Block b;
            v >> number >> b.step >> b.nblocks >> b.block >> b.path;
            auto &o = r.sections.back().out;
            if (number < 1 || number > 100000) {
                ordered = false;
                continue;
            }
            if (o.size() < number) {
                o.resize(number);
            }
            if (o[number - 1].step >= 0) {
                ordered = false;
            }
            o[number - 1] = b;
        }
    }
    if (read) {
        VP_CHECK(r.status == 0 && r.end, "the pipeline ended with status " << r.status << ": " << r.errors.substr(0, 300) << (r.err ? " " + r.text.substr(r.text.find(">>ERR"), 200) : ""));
        VP_CHECK(ordered, "the messages of the pipeline are inconsistent");
        for (auto &s : r.sections) {
            VP_CHECK(static_cast<int>(s.out.size()) == s.tot, "section " << s.type << ": " << s.tot << " results announced, " << s.out.size() << " delivered");
            int nb = s.out.empty() ? 0 : s.out[0].nblocks;
            for (size_t i = 0; i < s.out.size(); ++i) {
                auto &b = s.out[i];
                VP_CHECK(b.step >= 0, "section " << s.type << ": result number " << i + 1 << " is missing");
                VP_CHECK(b.nblocks == nb && b.step == static_cast<int>(i) / nb && b.block == static_cast<int>(i) % nb, "section " << s.type << ": result " << i + 1 << " is announced as block " << b.block << " of " << b.nblocks << " of step " << b.step);
                if (complex) {
                    load<cd>(b);
                } else {
                    load<double>(b);
                }
            }
        }
    }
    vp::remove_tree(dir);
    return r;
}
// sum_k e_k v_k v_k^T: what is compared of sets of eigenvectors (no phases, no choice within degenerate levels)
inline Mat hamiltonian(const Block &b) { return b.v * b.e.cast<cd>().asDiagonal() * b.v.adjoint(); }
inline Mat projector(const Block &b) { return b.v * b.v.adjoint(); }
inline double top(const Eigen::VectorXd &e) { return e.size() == 0 ? 0 : e.cwiseAbs().maxCoeff(); }

inline void same(const Run &a, const Run &b, const std::string &what) {
    VP_CHECK(a.sections.size() == b.sections.size(), what << ": " << a.sections.size() << " instead of " << b.sections.size() << " parts");
    for (size_t s = 0; s < a.sections.size(); ++s) {
        auto &x = a.sections[s], &y = b.sections[s];
        VP_CHECK(x.type == y.type && x.tot == y.tot && x.bas == y.bas && x.states == y.states, what << ": section " << x.type << " has " << x.tot << " results and " << x.bas << " (" << x.states.size() << ") states instead of " << y.tot << " and " << y.bas << " (" << y.states.size() << ")");
        for (size_t i = 0; i < x.out.size(); ++i) {
            auto &p = x.out[i], &q = y.out[i];
            double scale = 1e-3 + top(q.e), d = p.e.size() == q.e.size() && p.e.size() > 0 ? (p.e - q.e).cwiseAbs().maxCoeff() : 0;
            VP_CHECK(p.nblocks == q.nblocks && p.e.size() == q.e.size() && p.v.rows() == q.v.rows(), what << ": section " << x.type << " step " << q.step << " block " << q.block << ": " << p.e.size() << " vectors of length " << p.v.rows() << " instead of " << q.e.size() << " of length " << q.v.rows());
            VP_CHECK(d <= 1e-8 * scale, what << ": section " << x.type << " step " << q.step << " block " << q.block << ": energies differ by " << d << " (largest " << scale << ")");
            double n = 3e-4 * std::sqrt(1. + static_cast<double>(q.e.size()));
            VP_CHECK(sm::maxabs(hamiltonian(p) - hamiltonian(q)) <= n * scale && sm::maxabs(projector(p) - projector(q)) <= n, what << ": section " << x.type << " step " << q.step << " block " << q.block << ": eigenvectors differ, " << sm::maxabs(hamiltonian(p) - hamiltonian(q)) << " GHz, " << sm::maxabs(projector(p) - projector(q)));
            VP_CHECK(p.params == q.params, what << ": section " << x.type << " step " << q.step << " block " << q.block << ": stored parameters differ");
        }
    }
}

// ---------------------------------------------------------------------------------------------
// configurations
// ---------------------------------------------------------------------------------------------
struct Atom {
    std::string species;
    int n, l;
    double j, m;
    StateOne state() const { return StateOne(species, n, l, static_cast<float>(j), static_cast<float>(m)); }
};
inline std::string num(double x) {
    std::ostringstream os;
    os.precision(17);
    os << x;
    return os.str();
}
inline double number(const Conf &c, const std::string &k) {
    auto it = c.find(k);
    return it == c.end() || it->second.empty() ? 0 : std::stod(it->second);
}
inline bool is(const Conf &c, const std::string &k) {
    auto it = c.find(k);
    return it != c.end() && it->second == "true";
}
inline Atom gen_atom(vp::Src &src, const std::string &species) {
    Atom a;
    a.species = species;
    a.l = static_cast<int>(src.choice(3));
    a.n = static_cast<int>(src.pick(15, 30));
    a.j = a.l == 0 || src.flip() ? a.l + 0.5 : a.l - 0.5;
    a.m = static_cast<double>(src.pick(0, static_cast<long long>(2 * a.j))) - a.j;
    return a;
}
inline void put(Conf &c, const Atom &a, const std::string &i) {
    c["species" + i] = a.species;
    c["n" + i] = std::to_string(a.n);
    c["l" + i] = std::to_string(a.l);
    c["j" + i] = num(a.j);
    c["m" + i] = num(a.m);
}
inline Atom atom(const Conf &c, const std::string &i) {
    return Atom{c.at("species" + i), static_cast<int>(number(c, "n" + i)), static_cast<int>(number(c, "l" + i)), number(c, "j" + i), number(c, "m" + i)};
}
// the states within the differences of the quantum numbers and of the energy, as the documentation
// of the settings describes them
inline std::vector<StateOne> basis(const Conf &c, const std::vector<Atom> &init) {
    std::set<StateOne> found;
    double mean = 0;
    for (auto &a : init) {
        mean += a.state().getEnergy(sm::cache()) / static_cast<double>(init.size());
    }
    double dn = number(c, "deltaNSingle"), dl = number(c, "deltaLSingle"), dj = number(c, "deltaJSingle"), dm = number(c, "deltaMSingle"), de = number(c, "deltaESingle");
    auto within = [](double x, double d) { return d < 0 || std::abs(x) <= d; };
    for (auto &a : init) {
        for (int n = std::max(1, a.n - static_cast<int>(dn)); n <= a.n + dn; ++n) {
            for (int l = 0; l < n; ++l) {
                for (double j = std::abs(l - 0.5); j <= l + 0.5; j += 1) {
                    for (double m = -j; m <= j; m += 1) {
                        if (within(l - a.l, dl) && within(j - a.j, dj) && within(m - a.m, dm)) {
                            if (!mx::rydberg(a.species, n, l, j)) {
                                throw vp::Discard();
                            }
                            StateOne s(a.species, n, l, static_cast<float>(j), static_cast<float>(m));
                            double e = std::abs(s.getEnergy(sm::cache()) - mean);
                            if (std::abs(e - de) < 1e-6) {
                                throw vp::Discard();
                            }
                            if (within(e, de)) {
                                found.insert(s);
                            }
                        }
                    }
                }
            }
        }
    }
    return std::vector<StateOne>(found.begin(), found.end());
}
inline sm::One one(const Conf &c, const std::string &species, double pos) {
    sm::One o;
    o.species = species;
    const char *ax = "xyz";
    for (int i = 0; i < 3; ++i) {
        std::string a(1, ax[i]);
        o.e[i] = number(c, "minE" + a) + pos * (number(c, "maxE" + a) - number(c, "minE" + a));
        o.b[i] = number(c, "minB" + a) + pos * (number(c, "maxB" + a) - number(c, "minB" + a));
    }
    o.diamagnetism = is(c, "diamagnetism");
    return o;
}
inline bool constant(const Conf &c) {
    for (std::string f : {"Ex", "Ey", "Ez", "Bx", "By", "Bz"}) {
        if (number(c, "min" + f) != number(c, "max" + f)) {
            return false;
        }
    }
    return true;
}
inline void gen_fields(vp::Src &src, Conf &c, bool complex, bool zonly, int n) {
    double en = std::min(1e9 / std::pow(n, 4.) * 5e-3 / n * 20, 100.);
    int kind = static_cast<int>(src.choice(3)); // none, constant, scanned
    for (std::string f : {"Ez", "Bz", "Ex", "Bx", "Ey", "By"}) {
        double hi = f[0] == 'E' ? en : 1000;
        double lo = 0, up = 0;
        bool allowed = kind > 0 && (f[1] == 'z' || (!zonly && (f[1] == 'x' || complex)));
        if (allowed && src.flip()) {
            lo = sm::field(src, hi);
            up = kind > 1 && src.flip() ? sm::field(src, hi) : lo;
        }
        c["min" + f] = num(lo);
        c["max" + f] = num(up);
    }
    if (kind > 1 && constant(c)) {
        c["maxEz"] = num(sm::field(src, en));
    }
}
inline void gen_common(vp::Src &src, Conf &c) {
    c["missingCalc"] = "true";
    c["missingWhittaker"] = "false";
    if (src.chance(1, 4)) {
        c["missingCalc"] = "false";
        c["missingWhittaker"] = "true";
    }
    c["diamagnetism"] = src.flip() ? "true" : "false";
    c["deltaNSingle"] = std::to_string(src.choice(2));
    c["deltaLSingle"] = std::to_string(src.of({1, 1, 2, 0}));
    c["deltaJSingle"] = src.chance(2, 3) ? "-1" : num(static_cast<double>(src.choice(2)));
    c["deltaMSingle"] = src.chance(1, 2) ? "-1" : num(static_cast<double>(src.choice(3)));
    c["deltaESingle"] = src.chance(1, 4) ? "-1" : num(src.logreal(20, 1500));
    c["steps"] = std::to_string(src.pick(1, 5));
}
inline std::string text(const Conf &c) {
    std::string s;
    for (auto &p : c) {
        if (p.second != "0" && p.second != "false") {
            s += p.first + "=" + p.second + " ";
        }
    }
    return s;
}
inline int steps_one(const Conf &c) { return constant(c) ? 1 : static_cast<int>(number(c, "steps")); }
inline double position(int step, int steps) { return steps > 1 ? step / (steps - 1.) : 0; }
inline std::vector<StateOne> states_one(const Section &s, const std::string &species) {
    std::vector<StateOne> v;
    for (auto &x : s.states) {
        VP_CHECK(x.size() == 5 && static_cast<size_t>(x[0]) == v.size(), "list of states is inconsistent");
        v.emplace_back(species, static_cast<int>(x[1]), static_cast<int>(x[2]), static_cast<float>(x[3]), static_cast<float>(x[4]));
    }
    return v;
}
} // namespace pl
#endif
