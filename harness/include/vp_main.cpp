// Driver of the property-based testing engine (see vp.hpp).
#include "vp.hpp"

#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <typeinfo>

#include <fcntl.h>
#include <ftw.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vp {

static CaseInfo *current_info = nullptr;
CaseInfo &info() {
    static CaseInfo dummy;
    return current_info ? *current_info : dummy;
}
std::vector<Facet> &facets() {
    static std::vector<Facet> f;
    return f;
}
[[noreturn]] void fail(const std::string &msg) { throw Failure(msg); }

bool known(const std::string &id) {
    const char *e = getenv("VP_KNOWN");
    if (!e) {
        return false;
    }
    std::stringstream ss(e);
    std::string tok;
    while (std::getline(ss, tok, ',')) {
        if (tok == id) {
            info().excluded.push_back(id);
            return true;
        }
    }
    return false;
}

static std::string scratch_path;
static pid_t scratch_owner = 0;
static int rm_cb(const char *p, const struct stat *, int, struct FTW *) { return ::remove(p); }
void remove_tree(const std::string &path) {
    if (scratch_path.empty() || path.compare(0, scratch_path.size(), scratch_path) != 0) {
        return;
    }
    nftw(path.c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS);
}
static void cleanup() {
    if (!scratch_path.empty() && scratch_owner == getpid()) {
        nftw(scratch_path.c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS);
    }
}
const std::string &scratch() {
    if (scratch_path.empty()) {
        const char *base = getenv("VP_SCRATCH");
        std::string t = std::string(base ? base : "/tmp") + "/vpXXXXXX";
        std::vector<char> buf(t.begin(), t.end());
        buf.push_back(0);
        if (!mkdtemp(buf.data())) {
            perror("mkdtemp");
            _exit(3);
        }
        scratch_path = buf.data();
        scratch_owner = getpid();
        atexit(cleanup);
    }
    return scratch_path;
}
std::string fresh_dir(const std::string &prefix) {
    static int n = 0;
    std::string d = scratch() + "/" + prefix + std::to_string(getpid()) + "_" + std::to_string(n++);
    mkdir(d.c_str(), 0700);
    return d;
}

static uint64_t fnv(const std::string &s, uint64_t h = 0xcbf29ce484222325ULL) {
    for (unsigned char c : s) {
        h = (h ^ c) * 0x100000001b3ULL;
    }
    return h;
}
static uint64_t case_seed(uint64_t seed, const std::string &facet, long i) {
    return fnv(facet + "#" + std::to_string(seed) + "#" + std::to_string(i));
}
static std::string js(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else {
            o += static_cast<char>(c);
        }
    }
    return o + "\"";
}

struct Outcome {
    enum { Pass, Fail, Disc } kind = Pass;
    std::string msg;
    std::vector<uint64_t> choices;
    std::string text;
    bool nontrivial = false;
    std::vector<std::string> labels, excluded;
};

static Outcome run_inproc(const Facet &f, Src &src) {
    Outcome o;
    CaseInfo ci;
    current_info = &ci;
    try {
        f.body(src);
    } catch (const Discard &) {
        o.kind = Outcome::Disc;
    } catch (const Failure &e) {
        o.kind = Outcome::Fail;
        o.msg = e.msg;
    } catch (const std::exception &e) {
        o.kind = Outcome::Fail;
        o.msg = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what();
    } catch (...) {
        o.kind = Outcome::Fail;
        o.msg = "unexpected exception of unknown type";
    }
    current_info = nullptr;
    o.choices = src.recorded();
    o.text = ci.text.str();
    o.nontrivial = ci.nontrivial;
    o.labels = ci.labels;
    o.excluded = ci.excluded;
    return o;
}

// One case in a forked child with a CPU limit: crashes and hangs become failures.
static Outcome run_forked(const Facet &f, Src src, int cpu_limit) {
    int fd[2];
    if (pipe(fd) != 0) {
        perror("pipe");
        _exit(3);
    }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        struct rlimit rl {
            static_cast<rlim_t>(cpu_limit), static_cast<rlim_t>(cpu_limit + 5)
        };
        setrlimit(RLIMIT_CPU, &rl);
        struct rlimit rc {
            0, 0
        };
        setrlimit(RLIMIT_CORE, &rc);
        alarm(cpu_limit + 20); // deadlocks use no CPU time
        Outcome o = run_inproc(f, src);
        std::ostringstream os;
        os << static_cast<int>(o.kind) << " " << o.choices.size();
        for (auto c : o.choices) {
            os << " " << c;
        }
        os << " " << o.nontrivial << " " << o.msg.size() << " " << o.text.size() << "\n"
           << o.msg << o.text;
        std::string s = os.str();
        size_t off = 0;
        while (off < s.size()) {
            ssize_t w = write(fd[1], s.data() + off, s.size() - off);
            if (w <= 0) {
                break;
            }
            off += w;
        }
        close(fd[1]);
        _exit(77);
    }
    close(fd[1]);
    std::string s;
    char buf[4096];
    ssize_t r;
    while ((r = read(fd[0], buf, sizeof buf)) > 0) {
        s.append(buf, r);
    }
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    Outcome o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
        std::istringstream is(s);
        int k;
        size_t n, lm, lt;
        is >> k >> n;
        o.kind = k == 0 ? Outcome::Pass : k == 1 ? Outcome::Fail : Outcome::Disc;
        o.choices.resize(n);
        for (auto &c : o.choices) {
            is >> c;
        }
        is >> o.nontrivial >> lm >> lt;
        is.get();
        o.msg.resize(lm);
        is.read(&o.msg[0], lm);
        o.text.resize(lt);
        is.read(&o.text[0], lt);
        return o;
    }
    o.kind = Outcome::Fail;
    if (WIFSIGNALED(st)) {
        int sig = WTERMSIG(st);
        o.msg = sig == SIGXCPU || sig == SIGKILL || sig == SIGALRM
            ? "case did not finish within its CPU limit (or was killed)"
            : std::string("process died with signal ") + strsignal(sig);
    } else {
        o.msg = "process ended with status " + std::to_string(WEXITSTATUS(st)) +
            " (sanitizer report or exit call)";
    }
    return o;
}

struct Options {
    std::string facet, out, replay, status;
    uint64_t seed = 1;
    long from = 0, to = 0;
    bool isolate = false;
    double budget = 1e9;
    int cpu = 120;
    double shrink_s = 40;
    long shrink_n = 2000;
};

static Outcome run(const Facet &f, Src src, const Options &o) {
    if (o.isolate) {
        Outcome r = run_forked(f, src, o.cpu);
        if (r.kind == Outcome::Fail && r.choices.empty()) {
            // the child died: recover the choices (unknown here) from the source if replaying
            r.choices = {};
        }
        return r;
    }
    return run_inproc(f, src);
}

// For random cases executed in a child that dies, the drawn choices are lost.  Long prefix of the
// random stream drawn with the widest range cannot be replayed as bounded choices, so isolated mode
// first materialises choices by logging them to a pipe-backed file.
static std::vector<uint64_t> log_choices(const Facet &f, uint64_t seed);

static std::vector<uint64_t> shrink(const Facet &f, std::vector<uint64_t> best, const Options &opt,
                                    Outcome &bestOut, long &tried) {
    auto t0 = std::chrono::steady_clock::now();
    auto expired = [&] {
        return tried >= opt.shrink_n ||
            std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() >
            opt.shrink_s;
    };
    auto attempt = [&](const std::vector<uint64_t> &cand) {
        if (expired()) {
            return false;
        }
        ++tried;
        Outcome o = run(f, Src(cand), opt);
        if (o.kind == Outcome::Fail) {
            bestOut = o;
            best = cand;
            if (!o.choices.empty() && o.choices.size() < best.size()) {
                best.resize(o.choices.size());
            }
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && !expired()) {
        progress = false;
        // delete chunks
        for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1 && !expired(); k /= 2) {
            for (size_t i = 0; i + k <= best.size() && !expired();) {
                std::vector<uint64_t> c(best);
                c.erase(c.begin() + i, c.begin() + i + k);
                if (attempt(c)) {
                    progress = true;
                } else {
                    i += k;
                }
            }
        }
        // zero chunks
        for (size_t k = std::min<size_t>(8, best.size()); k >= 1 && !expired(); k /= 2) {
            for (size_t i = 0; i + k <= best.size() && !expired(); i += k) {
                if (std::all_of(best.begin() + i, best.begin() + i + k,
                                [](uint64_t v) { return v == 0; })) {
                    continue;
                }
                std::vector<uint64_t> c(best);
                std::fill(c.begin() + i, c.begin() + i + k, 0);
                progress = attempt(c) || progress;
            }
        }
        // lower single values
        for (size_t i = 0; i < best.size() && !expired(); ++i) {
            uint64_t lo = 0, hi = best[i];
            while (lo < hi && !expired()) {
                uint64_t mid = lo + (hi - lo) / 2;
                std::vector<uint64_t> c(best);
                c[i] = mid;
                if (attempt(c)) {
                    progress = true;
                    if (i >= best.size()) {
                        break;
                    }
                    hi = best[i];
                    if (hi > mid) {
                        hi = mid;
                    }
                } else {
                    lo = mid + 1;
                }
            }
        }
    }
    return best;
}

static std::vector<uint64_t> log_choices(const Facet &f, uint64_t seed) {
    // run in a child; the child's Src is shared through a file written at each draw
    std::string path = scratch() + "/choices";
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        struct rlimit rc {
            0, 0
        };
        setrlimit(RLIMIT_CORE, &rc);
        struct rlimit rl {
            45, 50
        };
        alarm(60);
        setrlimit(RLIMIT_CPU, &rl);
        static Src *s = new Src(seed);
        static std::string p = path;
        auto dump = [](int sig) {
            // not async-signal-safe, but the process is doomed anyway
            FILE *fp = fopen(p.c_str(), "w");
            if (fp) {
                for (auto c : s->recorded()) {
                    fprintf(fp, "%llu\n", static_cast<unsigned long long>(c));
                }
                fclose(fp);
            }
            _exit(128 + sig);
        };
        for (int sig : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGXCPU, SIGALRM}) {
            signal(sig, dump);
        }
        CaseInfo ci;
        current_info = &ci;
        try {
            f.body(*s);
        } catch (...) {
        }
        dump(0);
    }
    int st;
    waitpid(pid, &st, 0);
    std::vector<uint64_t> v;
    std::ifstream in(path);
    unsigned long long x;
    while (in >> x) {
        v.push_back(x);
    }
    return v;
}

static std::vector<uint64_t> read_choices(const std::string &path) {
    std::ifstream in(path);
    std::string line, all;
    std::vector<uint64_t> v;
    while (std::getline(in, line)) {
        if (line.compare(0, 8, "choices:") == 0) {
            std::istringstream is(line.substr(8));
            uint64_t x;
            while (is >> x) {
                v.push_back(x);
            }
        }
    }
    return v;
}

int main_(int argc, char **argv) {
    Options o;
    bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "--list") {
            list = true;
        } else if (a == "--facet") {
            o.facet = val();
        } else if (a == "--seed") {
            o.seed = std::stoull(val());
        } else if (a == "--from") {
            o.from = std::stol(val());
        } else if (a == "--to") {
            o.to = std::stol(val());
        } else if (a == "--out") {
            o.out = val();
        } else if (a == "--replay") {
            o.replay = val();
        } else if (a == "--isolate") {
            o.isolate = true;
        } else if (a == "--budget") {
            o.budget = std::stod(val());
        } else if (a == "--cpu") {
            o.cpu = std::stoi(val());
        } else if (a == "--status") {
            o.status = val();
        } else if (a == "--shrink-s") {
            o.shrink_s = std::stod(val());
        } else {
            std::cerr << "unknown option " << a << std::endl;
            return 3;
        }
    }
    if (list) {
        for (auto &f : facets()) {
            std::cout << f.name << "\t" << f.quick << "\t" << f.thorough << "\t"
                      << (f.probe ? f.finding : "-") << "\t" << f.rule << "\n";
        }
        return 0;
    }
    const Facet *fp = nullptr;
    for (auto &f : facets()) {
        if (f.name == o.facet) {
            fp = &f;
        }
    }
    if (!fp) {
        std::cerr << "no such facet: " << o.facet << std::endl;
        return 3;
    }
    const Facet &f = *fp;
    scratch();

    if (!o.replay.empty()) {
        auto choices = read_choices(o.replay);
        Outcome r = o.isolate ? run_forked(f, Src(choices), o.cpu) : [&] {
            Src s(choices);
            return run_inproc(f, s);
        }();
        std::cout << (r.kind == Outcome::Fail ? "FAIL" : r.kind == Outcome::Pass ? "PASS" : "DISCARD")
                  << "\ncase: " << r.text << "\nmessage: " << r.msg << std::endl;
        return r.kind == Outcome::Fail ? 1 : 0;
    }

    auto t0 = std::chrono::steady_clock::now();
    long evals = 0, discards = 0, skipped = 0;
    std::set<uint64_t> distinct;
    std::map<std::string, long> labels, excluded;
    std::vector<std::string> samples;
    std::string failjson = "null";
    long failing = -1;
    int status_fd =
        o.status.empty() ? -1 : open(o.status.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    for (long i = o.from; i < o.to; ++i) {
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() >
            o.budget) {
            skipped = o.to - i;
            break;
        }
        uint64_t cs = case_seed(o.seed, f.name, i);
        if (status_fd >= 0) {
            char b[32];
            int n = snprintf(b, sizeof b, "%-20ld", i);
            if (pwrite(status_fd, b, n, 0) < 0) {
                perror("status");
            }
        }
        Src src(cs);
        Outcome r = o.isolate ? run_forked(f, src, o.cpu) : run_inproc(f, src);
        if (r.kind == Outcome::Disc) {
            ++discards;
            continue;
        }
        ++evals;
        for (auto &l : r.labels) {
            ++labels[l];
        }
        for (auto &l : r.excluded) {
            ++excluded[l];
        }
        if (r.nontrivial) {
            bool isnew = distinct.insert(fnv(r.text)).second;
            if (isnew && (samples.size() < 2) && r.text.size() < 1500) {
                samples.push_back(r.text);
            }
        }
        if (r.kind == Outcome::Fail) {
            failing = i;
            if (o.isolate && r.choices.empty()) {
                r.choices = log_choices(f, cs);
            }
            long tried = 0;
            Outcome best = r;
            // an in-process failure is confirmed in this process first; it may depend on the
            // state left by earlier cases, in which case shrinking is pointless
            Outcome again = run(f, Src(r.choices), o);
            std::vector<uint64_t> bc = r.choices;
            if (again.kind == Outcome::Fail) {
                bc = shrink(f, r.choices, o, best, tried);
            }
            std::ostringstream os;
            os << "{\"case\":" << i << ",\"reproduced_in_process\":"
               << (again.kind == Outcome::Fail ? "true" : "false") << ",\"shrink_tried\":" << tried
               << ",\"message\":" << js(best.msg) << ",\"text\":" << js(best.text)
               << ",\"original_message\":" << js(r.msg) << ",\"original_text\":" << js(r.text)
               << ",\"original_choices\":\"";
            for (auto c : r.choices) {
                os << c << " ";
            }
            os << "\",\"choices\":\"";
            for (auto c : bc) {
                os << c << " ";
            }
            os << "\"}";
            failjson = os.str();
            break;
        }
    }
    std::ostringstream os;
    os << "{\"facet\":" << js(f.name) << ",\"from\":" << o.from << ",\"to\":" << o.to
       << ",\"evaluations\":" << evals << ",\"discards\":" << discards << ",\"skipped\":" << skipped
       << ",\"failing\":" << failing << ",\"wall\":"
       << std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count()
       << ",\"distinct\":[";
    bool first = true;
    for (auto d : distinct) {
        os << (first ? "" : ",") << d;
        first = false;
    }
    os << "],\"labels\":{";
    first = true;
    for (auto &l : labels) {
        os << (first ? "" : ",") << js(l.first) << ":" << l.second;
        first = false;
    }
    os << "},\"excluded\":{";
    first = true;
    for (auto &l : excluded) {
        os << (first ? "" : ",") << js(l.first) << ":" << l.second;
        first = false;
    }
    os << "},\"samples\":[";
    first = true;
    for (auto &s : samples) {
        os << (first ? "" : ",") << js(s);
        first = false;
    }
    os << "],\"failure\":" << failjson << "}";
    std::ofstream(o.out + ".tmp") << os.str() << std::endl;
    rename((o.out + ".tmp").c_str(), o.out.c_str());
    return failing >= 0 ? 1 : 0;
}

} // namespace vp

// optional: an executable may also serve the Python checks (line protocol on stdin/stdout)
int vp_helper() __attribute__((weak));

int main(int argc, char **argv) {
    if (argc == 2 && std::string(argv[1]) == "--helper" && vp_helper) {
        return vp_helper();
    }
    return vp::main_(argc, argv);
}
