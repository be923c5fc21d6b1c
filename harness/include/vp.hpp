// Small property-based testing engine used by all C++ checks.
//
// A facet is a function of a finite sequence of bounded integer choices ("choice sequence", as in
// Hypothesis).  All randomness comes from vp::Src; a case is therefore replayed exactly from its
// recorded choices, and shrinking works on the choices (deleting, zeroing, lowering) and never
// leaves the generator's domain.  The same facets can be driven by libFuzzer (bytes -> choices).
#ifndef VP_HPP
#define VP_HPP

#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vp {

struct Failure : std::exception {
    std::string msg;
    explicit Failure(std::string m) : msg(std::move(m)) {}
    const char *what() const noexcept override { return msg.c_str(); }
};

// Thrown by generators that were asked for something impossible; the case is not counted.
struct Discard {};

class Src {
public:
    // random mode
    explicit Src(uint64_t seed) : state(seed), replay(false) {}
    // replay mode: choices past the end are 0 (the simplest choice)
    explicit Src(std::vector<uint64_t> c) : state(0), replay(true), choices(std::move(c)) {}

    uint64_t choice(uint64_t max) { // uniform in [0,max]
        uint64_t v;
        if (replay) {
            v = pos < choices.size() ? choices[pos] : 0;
            if (v > max) {
                v = (max == UINT64_MAX) ? v : v % (max + 1);
            }
        } else {
            v = max == UINT64_MAX ? next() : next() % (max + 1);
        }
        ++pos;
        record.push_back(v);
        if (record.size() > 2000000) {
            throw Discard();
        }
        return v;
    }
    // integer in [lo,hi]; simplest value is lo
    long long pick(long long lo, long long hi) {
        return lo + static_cast<long long>(choice(static_cast<uint64_t>(hi - lo)));
    }
    bool flip() { return choice(1) == 1; }
    // true with probability num/den; simplest is false
    bool chance(int num, int den) { return static_cast<int>(choice(den - 1)) >= den - num; }
    template <typename T>
    const T &of(const std::vector<T> &v) {
        return v.at(choice(v.size() - 1));
    }
    template <typename T>
    T of(std::initializer_list<T> v) {
        return *(v.begin() + choice(v.size() - 1));
    }
    // size skewed to small values, in [lo,hi]
    long long size(long long lo, long long hi) {
        long long h = hi;
        uint64_t c = choice(3);
        if (c == 1) {
            h = lo + (hi - lo) / 3;
        } else if (c == 2) {
            h = lo + (hi - lo) / 10;
        }
        return pick(lo, h);
    }
    // real number in [lo,hi] on a fine grid; simplest is lo
    double real(double lo, double hi) {
        const uint64_t n = (1ULL << 40);
        return lo + (hi - lo) * (static_cast<double>(choice(n)) / static_cast<double>(n));
    }
    // real number in [-a,a]; simplest is 0
    double sym(double a) {
        double x = real(0, a);
        return flip() ? -x : x;
    }
    // log-uniform in [lo,hi]
    double logreal(double lo, double hi) { return std::exp(real(std::log(lo), std::log(hi))); }

    const std::vector<uint64_t> &recorded() const { return record; }

private:
    uint64_t next() {
        uint64_t z = (state += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint64_t state;
    bool replay;
    std::vector<uint64_t> choices;
    size_t pos = 0;
    std::vector<uint64_t> record;
};

// Bookkeeping of one case --------------------------------------------------------------------
struct CaseInfo {
    std::ostringstream text;       // human readable description of the case
    bool nontrivial = false;
    std::vector<std::string> labels;
    std::vector<std::string> excluded; // known findings met (and excluded) in this case
};
CaseInfo &info();

template <typename C>
inline std::string show(const C &v) {
    std::ostringstream os;
    os.precision(17);
    os << "[";
    bool first = true;
    for (const auto &x : v) {
        os << (first ? "" : ",") << x;
        first = false;
    }
    os << "]";
    return os.str();
}

#define VP_NOTE(...) (vp::info().text.precision(17), vp::info().text << __VA_ARGS__)
inline void nontrivial(bool b = true) { info().nontrivial = info().nontrivial || b; }
inline void label(const std::string &l) { info().labels.push_back(l); }

// True if finding `id` is listed as known for this property (environment VP_KNOWN, set by check.py
// from the committed findings file); the exclusion is counted.
bool known(const std::string &id);

[[noreturn]] void fail(const std::string &msg);

#define VP_CHECK(cond, ...)                                                                       \
    do {                                                                                          \
        if (!(cond)) {                                                                            \
            std::ostringstream vp_oss;                                                            \
            vp_oss.precision(17);                                                                 \
            vp_oss << "[" #cond "] " << __VA_ARGS__;                                              \
            vp::fail(vp_oss.str());                                                               \
        }                                                                                         \
    } while (0)

// |a-b| <= abs + rel*max(|a|,|b|); NaN never matches
inline bool near(double a, double b, double rel, double abs = 0) {
    return std::abs(a - b) <= abs + rel * std::max(std::abs(a), std::abs(b));
}

struct Facet {
    std::string name;
    long quick;
    long thorough;
    std::function<void(Src &)> body;
    std::string rule;    // what makes a case non-trivial
    bool probe = false;  // a probe for a known finding: body throws Failure while the defect exists
    std::string finding; // its id
};
std::vector<Facet> &facets();
struct Register {
    Register(Facet f) { facets().push_back(std::move(f)); }
};

#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
// VP_FACET("name", quick cases, thorough cases, "what makes a case non-trivial") { ... use src ... }
#define VP_FACET(name, q, t, rule)                                                                \
    static void VP_CAT(vp_facet_, __LINE__)(vp::Src & src);                                       \
    static vp::Register VP_CAT(vp_reg_, __LINE__)(                                                \
        vp::Facet{name, q, t, VP_CAT(vp_facet_, __LINE__), rule, false, ""});                     \
    static void VP_CAT(vp_facet_, __LINE__)([[maybe_unused]] vp::Src & src)
#define VP_PROBE(finding, text)                                                                   \
    static void VP_CAT(vp_facet_, __LINE__)(vp::Src & src);                                       \
    static vp::Register VP_CAT(vp_reg_, __LINE__)(                                                \
        vp::Facet{"probe-" finding, 1, 1, VP_CAT(vp_facet_, __LINE__), text, true, finding});     \
    static void VP_CAT(vp_facet_, __LINE__)([[maybe_unused]] vp::Src & src)

// Scratch directory of this process, removed at exit.
const std::string &scratch();
// A fresh, empty sub-directory of it.
std::string fresh_dir(const std::string &prefix);
void remove_tree(const std::string &path); // only inside scratch()

template <typename F>
bool throws(F &&f) {
    try {
        f();
    } catch (const Failure &) {
        throw;
    } catch (const std::exception &) {
        return true;
    }
    return false;
}

} // namespace vp

#endif
