// C14: single-atom matrix elements against an evaluation in the uncoupled basis.
// The library evaluates the square roots of the coupling factors in single precision, hence 2e-7.
#include "MatrixElements.hpp"
#include "mxref.hpp"
#include "vp.hpp"

namespace {
MatrixElementCache &shared(bool whittaker) { // values accumulate as in a long session
    static MatrixElementCache num, whi;
    static bool init = [] {
        whi.setMethod(WHITTAKER);
        return true;
    }();
    (void)init;
    return whittaker ? whi : num;
}
std::string two(const StateOne &a, const StateOne &b) { return "<" + a.str() + " | " + b.str() + ">"; }
// scale of a matrix element with these radial functions
double scale(const StateOne &a, const StateOne &b, int k) {
    return elementary_charge * std::max({std::abs(mx::radial(mx::level(a), mx::level(b), k)), std::sqrt(std::abs(mx::radial(mx::level(a), mx::level(a), k) * mx::radial(mx::level(b), mx::level(b), k)))});
}
StateOne with_m(const StateOne &s, float m) { return StateOne(s.getSpecies(), s.getN(), s.getL(), s.getJ(), m); }
} // namespace

VP_FACET("electric", 6000, 60000, "the element is allowed (non-zero angular factor)") {
    std::string sp = src.of(mx::species());
    bool whi = src.chance(1, 12);
    int ka = static_cast<int>(src.pick(0, 4));
    int kr = src.chance(1, 3) ? static_cast<int>(src.pick(0, 4)) : ka;
    StateOne a = mx::gen_state(src, sp, 3, whi ? 25 : 45, src.chance(1, 6) ? 20 : 4), b = mx::gen_partner(src, a, std::max(ka, 1), 3, 6);
    VP_NOTE(two(a, b) << " radial power " << kr << " rank " << ka << (whi ? " Whittaker" : ""));
    auto &c = shared(whi);
    double want = mx::electric(a, b, kr, ka, whi);
    double tol = 2e-7 * (std::abs(want) + 1e-3 * elementary_charge * std::abs(mx::radial(mx::level(a), mx::level(b), kr, whi)));
    double got = c.getElectricMultipole(a, b, kr, ka);
    VP_CHECK(std::abs(got - want) <= tol, two(a, b) << " radial power " << kr << ", rank " << ka << " is " << got << " instead of " << want);
    if (kr == ka) {
        double g = c.getElectricMultipole(a, b, ka);
        VP_CHECK(std::abs(g - want) <= tol, two(a, b) << " multipole of rank " << ka << " is " << g << " instead of " << want);
        if (ka == 1) {
            g = c.getElectricDipole(a, b);
            VP_CHECK(std::abs(g - want) <= tol, two(a, b) << " dipole is " << g << " instead of " << want);
        }
    }
    if (kr == 2) {
        double g = c.getDiamagnetism(a, b, ka), w = want * 2. / 3. * elementary_charge;
        VP_CHECK(std::abs(g - w) <= tol * elementary_charge, two(a, b) << " diamagnetic element of rank " << ka << " is " << g << " instead of " << w);
    }
    // exchange: <a|T_q|b> = (-1)^q <b|T_-q|a>
    double swapped = c.getElectricMultipole(b, a, kr, ka) * (std::lround(a.getM() - b.getM()) % 2 ? -1 : 1);
    VP_CHECK(std::abs(swapped - want) <= tol, two(b, a) << " exchanged element is " << swapped << " instead of " << want);
    // unphysical requests
    if (src.chance(1, 20)) {
        StateOne o(sp == "Rb" ? "Cs" : "Rb", 60, 0, 0.5f, 0.5f);
        VP_CHECK(vp::throws([&] { c.getElectricMultipole(a, o, kr, ka); }), "an element between different species was given a value");
        VP_CHECK(vp::throws([&] { c.getMagneticDipole(a, o); }), "an element between different species was given a value");
        VP_CHECK(vp::throws([&] { c.getRadial(a, o, kr); }), "an element between different species was given a value");
    }
    vp::nontrivial(want != 0);
}

VP_FACET("magnetic", 4000, 40000, "the element is allowed (non-zero angular factor)") {
    std::string sp = src.of(mx::species());
    bool whi = src.chance(1, 12);
    StateOne a = mx::gen_state(src, sp, 3, whi ? 25 : 45, src.chance(1, 6) ? 20 : 4);
    StateOne b = a;
    if (src.chance(3, 4)) { // same l
        double s = mx::spin(sp), j = std::abs(a.getL() - s) + static_cast<double>(src.pick(0, std::lround(a.getL() + s - std::abs(a.getL() - s))));
        double m = a.getM() + static_cast<double>(src.pick(-1, 1));
        int n = src.flip() ? a.getN() : a.getN() + static_cast<int>(src.pick(-2, 2));
        if (std::abs(m) <= j && mx::rydberg(sp, n, a.getL(), j)) {
            b = StateOne(sp, n, a.getL(), static_cast<float>(j), static_cast<float>(m));
        }
    } else {
        b = mx::gen_partner(src, a, 1, 3, 6);
    }
    VP_NOTE(two(a, b) << (whi ? " Whittaker" : ""));
    auto &c = shared(whi);
    double want = mx::magnetic(a, b, whi);
    double tol = bohr_magneton * 2e-7 * (1e-3 + std::abs(want / bohr_magneton));
    double got = c.getMagneticDipole(a, b);
    VP_CHECK(std::abs(got - want) <= tol, two(a, b) << " magnetic moment is " << got << " instead of " << want);
    double swapped = c.getMagneticDipole(b, a) * (std::lround(a.getM() - b.getM()) % 2 ? -1 : 1);
    VP_CHECK(std::abs(swapped - want) <= tol, two(b, a) << " exchanged magnetic moment is " << swapped << " instead of " << want);
    vp::nontrivial(want != 0);
}

VP_FACET("rules", 10000, 200000, "the selection rules exclude the element or allow it with a non-zero value") {
    std::string sp = src.of(mx::species());
    int k = static_cast<int>(src.pick(0, 4)), q = static_cast<int>(src.pick(-k - 1, k + 1));
    StateOne a = mx::gen_state(src, sp, 8, 30, 6), b = mx::gen_partner(src, a, k + 1, 2, 6);
    VP_NOTE(two(a, b) << " rank " << k << " q " << q);
    StateOneOld ao(sp, a.getN(), a.getL(), a.getJ(), a.getM()), bo(sp, b.getN(), b.getL(), b.getJ(), b.getM());
    bool mq = std::lround(a.getM() - b.getM()) == q;
    double w = mx::angular(mx::ang(a), mx::ang(b), k), wq = mq && std::abs(q) <= k ? w : 0;
    auto judge = [&](bool r, double v, const char *name) { VP_CHECK(r || std::abs(v) < 1e-12, name << " excludes " << two(a, b) << ", rank " << k << ", q " << q << " which is " << v); };
    bool r1 = selectionRulesMultipoleNew(a, b, k, q), r2 = selectionRulesMultipoleNew(a, b, k);
    judge(r1, wq, "selectionRulesMultipoleNew(q)");
    judge(r2, w, "selectionRulesMultipoleNew");
    judge(selectionRulesMultipole(ao, bo, k, q), wq, "selectionRulesMultipole(q)");
    judge(selectionRulesMultipole(ao, bo, k), w, "selectionRulesMultipole");
    double g = mx::moment(mx::ang(a), mx::ang(b), gL, gS), gq = mq && std::abs(q) <= 1 ? g : 0;
    judge(selectionRulesMomentumNew(a, b, q), gq, "selectionRulesMomentumNew(q)");
    judge(selectionRulesMomentumNew(a, b), g, "selectionRulesMomentumNew");
    judge(selectionRulesMomentum(ao, bo, q), gq, "selectionRulesMomentum(q)");
    judge(selectionRulesMomentum(ao, bo), g, "selectionRulesMomentum");
    // what the rules with q allow has exactly this q
    VP_CHECK(!r1 || mq, "the rules allow " << two(a, b) << " for q " << q);
    VP_CHECK(!selectionRulesMomentumNew(a, b, q) || mq, "the rules allow " << two(a, b) << " for q " << q);
    if (!r2) {
        double v = shared(false).getElectricMultipole(a, b, k);
        VP_CHECK(std::abs(v) <= 1e-13 * scale(a, b, k), two(a, b) << " rank " << k << " is forbidden but has the value " << v);
    }
    vp::nontrivial(!r2 || w != 0);
}

VP_FACET("rotation", 1500, 20000, "the two levels are coupled") {
    // Wigner-Eckart: relations between the elements of all m of two levels
    std::string sp = src.of(mx::species());
    int k = static_cast<int>(src.pick(1, 3));
    StateOne a = mx::gen_state(src, sp, 6, 40, 5), b = mx::gen_partner(src, a, k, 3, 6);
    bool magnetic = src.chance(1, 3);
    VP_NOTE(two(a, b) << " rank " << k << (magnetic ? " magnetic" : ""));
    auto &c = shared(false);
    auto el = [&](float ma, float mb) { return magnetic ? c.getMagneticDipole(with_m(a, ma), with_m(b, mb)) : c.getElectricMultipole(with_m(a, ma), with_m(b, mb), k); };
    if (magnetic) {
        k = 1;
    }
    float ja = a.getJ(), jb = b.getJ();
    double strength = 0, big = 0;
    for (float ma = -ja; ma <= ja; ma += 1) {
        double sum = 0;
        for (float mb = -jb; mb <= jb; mb += 1) {
            double v = el(ma, mb);
            big = std::max(big, std::abs(v));
            sum += v * v;
            VP_CHECK(std::abs(ma - mb) <= k || v == 0, two(with_m(a, ma), with_m(b, mb)) << " is " << v << " but m changes by more than the rank");
            // reflection m -> -m
            double sgn = std::lround(ja - jb + k) % 2 ? -1 : 1;
            double r = el(-ma, -mb) * sgn;
            VP_CHECK(std::abs(v - r) <= 1e-7 * (std::abs(v) + big) + 1e-300, two(with_m(a, ma), with_m(b, mb)) << " is " << v << " but the reflected one is " << r);
        }
        if (ma == -ja) {
            strength = sum;
        }
        VP_CHECK(std::abs(sum - strength) <= 1e-6 * strength + 1e-300, "the total strength of " << with_m(a, ma) << " to " << b << " is " << sum << ", that of m=-j is " << strength);
    }
    vp::nontrivial(big > 0);
}

VP_FACET("radial", 1500, 15000, "always") {
    std::string sp = src.of(mx::species());
    bool whi = src.chance(1, 4);
    int k = static_cast<int>(src.pick(0, 4));
    StateOne a = mx::gen_state(src, sp, 3, whi ? 25 : 60, 8), b = src.flip() ? a : mx::gen_partner(src, a, 2, 4, 8);
    VP_NOTE(two(a, b) << " r^" << k << (whi ? " Whittaker" : ""));
    auto &c = shared(whi);
    double want = mx::radial(mx::level(a), mx::level(b), k, whi), got = c.getRadial(a, b, k), swapped = c.getRadial(b, a, k);
    double tol = 1e-10 * std::abs(want) + 1e-13 * std::sqrt(std::abs(mx::radial(mx::level(a), mx::level(a), k, whi) * mx::radial(mx::level(b), mx::level(b), k, whi)));
    VP_CHECK(std::abs(got - want) <= tol, two(a, b) << " <r^" << k << "> is " << got << " um^" << k << " instead of " << want);
    VP_CHECK(got == swapped, two(a, b) << " radial element changes from " << got << " to " << swapped << " under exchange");
    StateTwo p(a, b);
    double r2a = mx::radial(mx::level(a), mx::level(a), 2, whi), r2b = mx::radial(mx::level(b), mx::level(b), 2, whi);
    double leroy = 2 * (std::sqrt(r2a) + std::sqrt(r2b));
    VP_CHECK(std::abs(p.getLeRoyRadius(c) - leroy) <= 1e-10 * leroy, "LeRoy radius of " << p << " is " << p.getLeRoyRadius(c) << " um instead of " << leroy);
    vp::nontrivial();
}

// The class used by the calculation pipeline
VP_FACET("pipeline-elements", 400, 5000, "a non-zero element was compared") {
    std::string sp = src.of(mx::species());
    int nlo = static_cast<int>(src.pick(8, 30));
    std::vector<StateOne> st;
    std::vector<StateOneOld> old;
    long cnt = src.pick(2, 6);
    for (long i = 0; i < cnt; ++i) {
        st.push_back(i && src.chance(2, 3) ? mx::gen_partner(src, st.front(), 2, 2, 5) : mx::gen_state(src, sp, nlo, nlo + 2, 4));
        old.emplace_back(sp, st.back().getN(), st.back().getL(), st.back().getJ(), st.back().getM());
    }
    std::vector<StateOneOld> unique;
    for (auto &o : old) {
        bool seen = false;
        for (auto &u : unique) {
            seen = seen || u == o;
        }
        if (!seen) {
            unique.push_back(o);
        }
    }
    bool whi = src.chance(1, 6), viavector = src.flip();
    Configuration conf;
    conf["missingCalc"] << (whi ? "false" : "true");
    conf["missingWhittaker"] << (whi ? "true" : "false");
    std::string file = vp::fresh_dir("me") + "/e.db";
    auto basis = std::make_shared<const BasisnamesOne>(BasisnamesOne::fromStates(unique));
    for (int round = 0; round < 2; ++round) { // second round: read back from the file
        MatrixElements m(conf, sp, file);
        int what = static_cast<int>(src.pick(0, 3)), k = static_cast<int>(src.pick(what == 2 ? 0 : 1, 3));
        if (what == 2) {
            k = src.of({0, 2});
        }
        VP_NOTE((round ? "; warm " : "") << sp << " " << unique.size() << " states, kind " << what << " rank " << k << (viavector ? " vector" : ""));
        auto go = [&](auto const &b) {
            if (what == 0) {
                m.precalculateMultipole(b, k);
            } else if (what == 1) {
                for (int q = -1; q <= 1; ++q) {
                    m.precalculateMagneticMomentum(b, q);
                }
            } else if (what == 2) {
                for (int q = -k; q <= k; ++q) {
                    m.precalculateDiamagnetism(b, k, q);
                }
            } else {
                for (int q = -1; q <= 1; ++q) {
                    m.precalculateElectricMomentum(b, q);
                }
            }
        };
        if (viavector) {
            go(unique);
        } else {
            go(basis);
        }
        for (auto &x : unique) {
            for (auto &y : unique) {
                StateOne a(sp, x.n, x.l, x.j, x.m), b(sp, y.n, y.l, y.j, y.m);
                double want, got, sc;
                if (what == 1) {
                    if (!selectionRulesMomentum(x, y)) {
                        continue;
                    }
                    want = -mx::magnetic(a, b, whi);
                    got = m.getMagneticMomentum(x, y);
                    sc = bohr_magneton;
                } else {
                    int kk = what == 3 ? 1 : k;
                    if (!selectionRulesMultipole(x, y, kk)) {
                        continue;
                    }
                    if (what == 2) {
                        want = mx::electric(a, b, 2, k, whi) * inverse_electron_rest_mass / 12. * elementary_charge;
                        got = m.getDiamagnetism(x, y, k);
                        sc = std::abs(elementary_charge * elementary_charge * mx::radial(mx::level(a), mx::level(b), 2, whi) * inverse_electron_rest_mass / 12.);
                    } else {
                        want = mx::electric(a, b, kk, kk, whi);
                        got = what == 3 ? m.getElectricMomentum(x, y) : m.getMultipole(x, y, kk);
                        sc = std::abs(elementary_charge * mx::radial(mx::level(a), mx::level(b), kk, whi));
                    }
                }
                VP_CHECK(std::abs(got - want) <= 2e-7 * (std::abs(want) + 1e-3 * sc), (round ? "read back: " : "") << two(a, b) << " kind " << what << " rank " << k << " is " << got << " instead of " << want);
                vp::nontrivial(want != 0);
            }
        }
    }
}

// The unit system: constants against published values (CODATA 2014/2018)
VP_FACET("constants", 1, 1, "always") {
    static_cast<void>(src);
    auto near = [&](double a, double b, const char *n) { VP_CHECK(std::abs(a / b - 1) < 1e-7, n << " is " << a << " instead of " << b); };
    near(au2GHz, 6579683.920502, "au2GHz");
    near(au2um, 5.29177210903e-5, "au2um");
    near(au2Vcm, 5.14220674763e9, "au2Vcm");
    near(au2G, 2.35051756758e9, "au2G");
    near(elementary_charge, 24.17989242, "elementary_charge");
    near(bohr_magneton, 1.39962449361e-3, "bohr_magneton");
    near(gS, 2.00231930436, "gS");
    near(gL, 1, "gL");
    near(coulombs_constant, 8.9875517923e9 * 1e14 * 6.62607015e-34 * 1e9, "coulombs_constant");
    near(inverse_electric_constant, coulombs_constant, "inverse_electric_constant");
    near(sqrt_inverse_electric_constant * sqrt_inverse_electric_constant, coulombs_constant, "sqrt_inverse_electric_constant");
    vp::nontrivial();
}
