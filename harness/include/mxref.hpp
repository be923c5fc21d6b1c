// Reference for single-atom matrix elements, independent of /repo's angular momentum code: the
// operators are evaluated in the uncoupled basis |l ml>|s ms> and transformed with Clebsch-Gordan
// coefficients (own evaluation of Racah's formula); no 3j/6j symbols or reduced elements are used.
// Only the radial integral is taken from the library (its correctness is the subject of C06).
#ifndef MXREF_HPP
#define MXREF_HPP
#include "Constants.hpp"
#include "MatrixElementCache.hpp"
#include "QuantumDefect.hpp"
#include "State.hpp"
#include "Wavefunction.hpp"
#include "qdmodel.hpp"

#include <map>
#include <tuple>

namespace mx {
inline long double fact(int n) {
    static const std::vector<long double> t = [] {
        std::vector<long double> v(200, 1);
        for (int i = 1; i < 200; ++i) {
            v[i] = v[i - 1] * i;
        }
        return v;
    }();
    return t.at(n);
}
// all arguments doubled
inline double cg2(int j1, int m1, int j2, int m2, int J, int M) {
    if (m1 + m2 != M || std::abs(m1) > j1 || std::abs(m2) > j2 || std::abs(M) > J || J > j1 + j2 || J < std::abs(j1 - j2) || (j1 + j2 + J) % 2 || (j1 + m1) % 2 || (j2 + m2) % 2 || (J + M) % 2) {
        return 0;
    }
    auto f = [](int x) { return fact(x / 2); };
    long double pre = std::sqrt((J + 1) * f(J + j1 - j2) * f(J - j1 + j2) * f(j1 + j2 - J) / f(j1 + j2 + J + 2));
    pre *= std::sqrt(f(J + M) * f(J - M) * f(j1 - m1) * f(j1 + m1) * f(j2 - m2) * f(j2 + m2));
    long double sum = 0;
    for (int k = 0; k <= j1 + j2; k += 2) {
        int d[] = {k, j1 + j2 - J - k, j1 - m1 - k, j2 + m2 - k, J - j2 + m1 + k, J - j1 - m2 + k};
        bool ok = true;
        long double den = 1;
        for (int x : d) {
            if (x < 0) {
                ok = false;
                break;
            }
            den *= f(x);
        }
        if (ok) {
            sum += ((k / 2) % 2 ? -1 : 1) / den;
        }
    }
    return static_cast<double>(pre * sum);
}
// <l m|C_kq|l' m'>, integer arguments
inline double c_kq(int l, int m, int k, int q, int lp, int mp) {
    return std::sqrt((2. * lp + 1) / (2. * l + 1)) * cg2(2 * lp, 2 * mp, 2 * k, 2 * q, 2 * l, 2 * m) * cg2(2 * lp, 0, 2 * k, 0, 2 * l, 0);
}
struct Ang {
    int l;
    double s, j, m;
};
inline int d2(double x) { return static_cast<int>(std::lround(2 * x)); }
// <(l s) j m|C_kq|(l' s) j' m'>, q = m - m'
inline double angular(const Ang &a, const Ang &b, int k) {
    int dq = d2(a.m) - d2(b.m);
    if (a.s != b.s || dq % 2 || std::abs(dq / 2) > k) {
        return 0;
    }
    double sum = 0;
    for (int ms = -d2(a.s); ms <= d2(a.s); ms += 2) {
        int ml = d2(a.m) - ms, mlp = d2(b.m) - ms;
        if (ml % 2 || mlp % 2) {
            continue;
        }
        sum += cg2(2 * a.l, ml, d2(a.s), ms, d2(a.j), d2(a.m)) * cg2(2 * b.l, mlp, d2(b.s), ms, d2(b.j), d2(b.m)) * c_kq(a.l, ml / 2, k, dq / 2, b.l, mlp / 2);
    }
    return sum;
}
// spherical component of an angular momentum operator, doubled arguments
inline double vec(int j, int m, int mp) {
    double J = j / 2., M = mp / 2.;
    if (std::abs(m) > j || std::abs(mp) > j) {
        return 0;
    }
    if (m == mp) {
        return M;
    }
    if (m == mp + 2) {
        return -std::sqrt((J - M) * (J + M + 1) / 2);
    }
    if (m == mp - 2) {
        return std::sqrt((J + M) * (J - M + 1) / 2);
    }
    return 0;
}
// <(l s) j m|gl L_q + gs S_q|(l' s) j' m'>
inline double moment(const Ang &a, const Ang &b, double gl, double gs) {
    if (a.s != b.s || a.l != b.l) {
        return 0;
    }
    double sum = 0;
    for (int ms = -d2(a.s); ms <= d2(a.s); ms += 2) {
        for (int msp = -d2(a.s); msp <= d2(a.s); msp += 2) {
            int ml = d2(a.m) - ms, mlp = d2(b.m) - msp;
            if (ml % 2 || mlp % 2) {
                continue;
            }
            double c = cg2(2 * a.l, ml, d2(a.s), ms, d2(a.j), d2(a.m)) * cg2(2 * b.l, mlp, d2(b.s), msp, d2(b.j), d2(b.m));
            if (ms == msp) {
                sum += c * gl * vec(2 * a.l, ml, mlp);
            }
            if (ml == mlp) {
                sum += c * gs * vec(d2(a.s), ms, msp);
            }
        }
    }
    return sum;
}
inline double spin(const std::string &species) {
    return std::isdigit(static_cast<unsigned char>(species.back())) ? (species.back() - '0' - 1) / 2. : 0.5;
}
struct Level {
    std::string sp;
    int n, l;
    double j;
    bool operator<(const Level &o) const { return std::tie(sp, n, l, j) < std::tie(o.sp, o.n, o.l, o.j); }
};
// radial integral in um^k
inline double radial(const Level &a, const Level &b, int k, bool whittaker = false, const std::string &db = "") {
    static std::map<std::tuple<Level, Level, int, bool>, double> memo;
    auto key = b < a ? std::make_tuple(b, a, k, whittaker) : std::make_tuple(a, b, k, whittaker); // symmetric
    auto it = memo.find(key);
    if (db.empty() && it != memo.end()) {
        return it->second;
    }
    QuantumDefect q1(a.sp, a.n, a.l, a.j, db), q2(b.sp, b.n, b.l, b.j, db);
    double v = std::pow(5.2917721067e-05, k) * (whittaker ? IntegrateRadialElement<Whittaker>(q1, k, q2) : IntegrateRadialElement<Numerov>(q1, k, q2));
    if (db.empty()) {
        memo[key] = v;
    }
    return v;
}
inline Level level(const StateOne &s) { return {s.getSpecies(), s.getN(), s.getL(), s.getJ()}; }
inline Ang ang(const StateOne &s) { return {s.getL(), spin(s.getSpecies()), s.getJ(), s.getM()}; }
inline double electric(const StateOne &a, const StateOne &b, int kr, int ka, bool whittaker = false) {
    double x = angular(ang(a), ang(b), ka);
    return x == 0 ? 0 : elementary_charge * radial(level(a), level(b), kr, whittaker) * x;
}
inline double magnetic(const StateOne &a, const StateOne &b, bool whittaker = false) {
    double x = moment(ang(a), ang(b), gL, gS);
    return x == 0 ? 0 : -bohr_magneton * radial(level(a), level(b), 0, whittaker) * x;
}
// species of the shipped database with the angular momenta for which it has levels
inline bool usable(const std::string &sp, int n, int l, double j) {
    auto lv = qdm::golden().level(sp, n, l, j);
    return lv && lv->nstar > 0.8 && n > l;
}
// the level is a proper Rydberg level: the series has converged (n is not among the core shells, where
// the expansion in 1/(n-d0)^2 is meaningless) and nstar is above l
inline bool rydberg(const std::string &sp, int n, int l, double j) {
    static std::map<std::tuple<std::string, int, int, double>, bool> memo;
    auto key = std::make_tuple(sp, n, l, j);
    auto it = memo.find(key);
    if (it == memo.end()) {
        auto lv = qdm::golden().level(sp, n, l, j), far = qdm::golden().level(sp, 300, l, j);
        bool ok = false;
        if (lv && far && n > l) {
            double expect = n - (300 - far->nstar);
            ok = expect > 1.4 && expect > l + 0.2 && std::abs(lv->nstar - expect) < 0.4;
        }
        it = memo.emplace(key, ok).first;
    }
    return it->second;
}
inline const std::vector<std::string> &species() {
    static const std::vector<std::string> v = [] {
        std::vector<std::string> o = {"Rb", "Cs"}; // simplest first
        for (auto &kv : qdm::golden().ritz) {
            if (kv.first != "Rb" && kv.first != "Cs" && qdm::golden().pot.count(kv.first)) {
                o.push_back(kv.first);
            }
        }
        return o;
    }();
    return v;
}
// a state of the species with n in [nlo,nhi], l in [0,lmax]
inline StateOne gen_state(vp::Src &src, const std::string &sp, int nlo, int nhi, int lmax) {
    double s = spin(sp);
    for (int tries = 0; tries < 40; ++tries) {
        int l = static_cast<int>(src.pick(0, lmax));
        double jlo = std::abs(l - s), jhi = l + s;
        double j = jlo + static_cast<double>(src.pick(0, std::lround(jhi - jlo)));
        int n = static_cast<int>(src.pick(nlo, nhi));
        double m = -j + static_cast<double>(src.pick(0, std::lround(2 * j)));
        if (rydberg(sp, n, l, j)) {
            return StateOne(sp, n, l, static_cast<float>(j), static_cast<float>(m));
        }
    }
    throw vp::Discard();
}
// a second state, mostly coupled to the first one by a rank k operator
inline StateOne gen_partner(vp::Src &src, const StateOne &a, int k, int dn, int lmax) {
    std::string sp = a.getSpecies();
    if (src.chance(1, 8)) {
        return gen_state(src, sp, std::max(1, a.getN() - dn), a.getN() + dn, lmax);
    }
    double s = spin(sp);
    for (int tries = 0; tries < 40; ++tries) {
        int l = a.getL() + static_cast<int>(src.pick(-k, k));
        if (l < 0) {
            continue;
        }
        double jlo = std::abs(l - s), jhi = l + s;
        double j = jlo + static_cast<double>(src.pick(0, std::lround(jhi - jlo)));
        double m = a.getM() + static_cast<double>(src.pick(-k, k));
        int n = a.getN() + static_cast<int>(src.pick(-dn, dn));
        if (n > 0 && std::abs(m) <= j && rydberg(sp, n, l, j)) {
            return StateOne(sp, n, l, static_cast<float>(j), static_cast<float>(m));
        }
    }
    throw vp::Discard();
}
} // namespace mx
#endif
