// C09: states are totally ordered values with consistent equality, hash and text.
#include "MatrixElementCache.hpp"
#include "State.hpp"
#include "StateOld.hpp"
#include "Constants.hpp"
#include "qdmodel.hpp"

#include <algorithm>
#include <set>
#include <tuple>
#include <unordered_set>

namespace {
// model of a one-atom state
struct M1 {
    bool art = false;
    std::string sp; // species or label
    int n = 0, l = 0;
    float j = 0, m = 0;
    auto key() const { return std::make_tuple(sp, art ? 0 : n, art ? 0 : l, art ? 0.f : j, art ? 0.f : m); }
    bool operator==(const M1 &o) const { return key() == o.key(); }
};
std::string frac(float x, bool integer) {
    std::ostringstream o;
    if (integer) {
        long k = std::lround(x);
        o << k;
    } else {
        o << std::lround(2 * x) << "/2";
    }
    return o.str();
}
std::string text(const M1 &s, bool brackets = true) {
    std::string o = brackets ? "|" : "";
    if (s.art) {
        o += s.sp;
    } else {
        bool integer = std::lround(2 * s.j) % 2 == 0;
        o += s.sp + ", " + std::to_string(s.n) + " " + (s.l < 7 ? std::string(1, "SPDFGHI"[s.l]) : std::to_string(s.l)) + "_" + frac(s.j, integer) + ", mj=" + frac(s.m, integer);
    }
    return brackets ? o + ">" : o;
}
float spin(const std::string &sp) { return std::isdigit(static_cast<unsigned char>(sp.back())) ? ((sp.back() - '0') - 1) / 2.f : 0.5f; }
std::string element(const std::string &sp) { return std::isdigit(static_cast<unsigned char>(sp.back())) ? sp.substr(0, sp.size() - 1) : sp; }

M1 gen_real(vp::Src &src, bool tight, bool shipped) {
    M1 s;
    if (shipped) {
        s.sp = src.of<std::string>({"Rb", "Li", "Na", "K", "Cs", "Sr1", "Sr3"});
    } else {
        s.sp = tight ? src.of<std::string>({"Rb", "Sr3", "Sr1"}) : src.of<std::string>({"Rb", "Cs", "Sr1", "Sr3", "R", "Rb3", "Rb1", "\xc3\xa9", "x y"});
    }
    float S = spin(s.sp);
    int base = tight ? 5 : static_cast<int>(src.pick(5, 120));
    s.n = base + static_cast<int>(src.pick(0, tight ? 2 : 10));
    s.l = static_cast<int>(src.pick(0, tight ? 2 : std::min(s.n - 1, 30)));
    float jmin = std::fabs(s.l - S);
    s.j = jmin + src.pick(0, std::lround(s.l + S - jmin));
    s.m = -s.j + src.pick(0, std::lround(2 * s.j));
    if (s.m == 0) {
        s.m = 0;
    }
    return s;
}
M1 gen1(vp::Src &src, bool tight) {
    if (src.chance(1, 5)) {
        M1 s;
        s.art = true;
        s.sp = src.of<std::string>({"G", "Rb", "", "Sr3", "|g>", "a\tb", "\xc3\xa9"});
        return s;
    }
    return gen_real(src, tight, false);
}
StateOne make(const M1 &s) { return s.art ? StateOne(s.sp) : StateOne(s.sp, s.n, s.l, s.j, s.m); }
std::string show(const M1 &s) { return s.art ? "label:" + s.sp : text(s); }

// relations of two objects whose models are equal (eq) or not
template <typename S>
void relations(const S &a, const S &b, bool eq, const std::string &what) {
    VP_CHECK((a == b) == eq, what << ": equality is wrong");
    VP_CHECK((a != b) == !eq, what << ": inequality is wrong");
    VP_CHECK((b == a) == eq, what << ": equality is not symmetric");
    VP_CHECK((a < b) + (b < a) + eq == 1, what << ": not exactly one of <, >, == holds");
}
template <typename S>
void relations_le(const S &a, const S &b, const std::string &what) {
    VP_CHECK((a <= b) == ((a < b) || (a == b)), what << ": <= is inconsistent with < and ==");
    VP_CHECK((b <= a) == ((b < a) || (a == b)), what << ": <= is inconsistent with < and ==");
    if (a == b) {
        VP_CHECK(a.getHash() == b.getHash(), what << ": equal states with different hashes");
        VP_CHECK(std::hash<S>{}(a) == std::hash<S>{}(b), what << ": equal states with different std::hash");
        VP_CHECK(a.str() == b.str(), what << ": equal states with different texts '" << a.str() << "' and '" << b.str() << "'");
    }
}
template <typename S>
void transitive(const S &a, const S &b, const S &c, const std::string &what) {
    const S *p[3] = {&a, &b, &c};
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) {
            for (int k = 0; k < 3; ++k) {
                VP_CHECK(!(*p[i] < *p[j] && *p[j] < *p[k]) || *p[i] < *p[k], what << ": the order is not transitive");
            }
        }
    }
}
bool wildcard(float x) { return x == ARB; }
} // namespace

VP_FACET("one-atom-order", 60000, 2000000, "at least two of the three states are different real states of one species") {
    bool tight = !src.chance(1, 4);
    M1 a = gen1(src, tight), b = gen1(src, tight), c = gen1(src, tight);
    if (src.chance(1, 6)) {
        b = a;
    } else if (!a.art && src.chance(1, 3)) { // differ in one place
        b = a;
        switch (src.pick(0, 5)) {
        case 0: b.n += 1; break;
        case 1: b.l += 1; break;
        case 2: b.j += 1; break;
        case 3: b.m = -b.m; break;
        case 4: b.sp = a.sp == "Rb" ? "Cs" : "Rb"; break;
        default: b = M1{true, a.sp}; break;
        }
    }
    std::string what = show(a) + " " + show(b) + " " + show(c);
    VP_NOTE(what);
    StateOne A = make(a), B = make(b), C = make(c);
    relations(A, B, a == b, what);
    relations(A, C, a == c, what);
    relations(B, C, b == c, what);
    relations_le(A, B, what);
    relations_le(A, C, what);
    relations_le(B, C, what);
    relations(A, make(a), true, what + " (same again)");
    relations_le(A, make(a), what + " (same again)");
    transitive(A, B, C, what);
    std::set<StateOne> s{A, B, C};
    std::unordered_set<StateOne> u{A, B, C};
    size_t want = 3 - (a == b) - (a == c || b == c);
    VP_CHECK(s.size() == want && u.size() == want, what << ": an ordered and a hashed set hold " << s.size() << " and " << u.size() << " states instead of " << want);
    vp::nontrivial((!a.art && !b.art && a.sp == b.sp && !(a == b)) || (!a.art && !c.art && a.sp == c.sp && !(a == c)));
}

VP_FACET("one-atom-properties", 30000, 600000, "a state with quantum numbers") {
    M1 a = gen1(src, false);
    VP_NOTE(show(a));
    StateOne A = make(a);
    std::ostringstream os;
    os << A;
    VP_CHECK(A.str() == text(a) && os.str() == text(a), "the text of " << show(a) << " is '" << A.str() << "'");
    VP_CHECK(A.isArtificial() == a.art, show(a) << ": artificial or not is wrong");
    VP_CHECK(!A.isGeneralized(), show(a) << " is called generalized");
    if (a.art) {
        VP_CHECK(A.getLabel() == a.sp, show(a) << ": wrong label");
        VP_CHECK(vp::throws([&] { A.getN(); }) && vp::throws([&] { A.getL(); }) && vp::throws([&] { A.getJ(); }) && vp::throws([&] { A.getM(); }) && vp::throws([&] { A.getS(); }) &&
                     vp::throws([&] { A.getSpecies(); }) && vp::throws([&] { A.getElement(); }) && vp::throws([&] { A.getEnergy(); }) && vp::throws([&] { A.getNStar(); }) && vp::throws([&] { A.getReflected(); }),
                 show(a) << ": an artificial state reported quantum numbers");
        return;
    }
    vp::nontrivial();
    VP_CHECK(A.getN() == a.n && A.getL() == a.l && A.getJ() == a.j && A.getM() == a.m, show(a) << ": wrong quantum numbers");
    VP_CHECK(A.getSpecies() == a.sp && A.getElement() == element(a.sp) && A.getS() == spin(a.sp), show(a) << ": species, element or spin is wrong");
    VP_CHECK(vp::throws([&] { A.getLabel(); }), show(a) << ": a state with quantum numbers reported a label");
    StateOne R = A.getReflected();
    VP_CHECK(R.getN() == a.n && R.getL() == a.l && R.getJ() == a.j && R.getM() == -a.m && R.getSpecies() == a.sp && R.getS() == spin(a.sp), show(a) << ": the reflected state is " << R);
    StateOne RR = R.getReflected();
    VP_CHECK(RR == A && RR.str() == A.str() && RR.getHash() == A.getHash(), show(a) << ": reflecting twice gives " << RR);
    VP_CHECK((R == A) == (a.m == 0), show(a) << ": reflected state equality");
    if (R == A) {
        VP_CHECK(R.str() == A.str() && R.getHash() == A.getHash(), show(a) << ": the equal reflected state has the text " << R);
        vp::label("m=0");
    }
    // wildcards
    M1 g = a;
    bool wn = src.flip(), wl = src.flip(), wj = src.flip(), wm = src.flip();
    StateOne G(a.sp, wn ? ARB : a.n, wl ? ARB : a.l, wj ? ARB : a.j, wm ? ARB : a.m);
    VP_CHECK(G.isGeneralized() == (wn || wl || wj || wm), show(a) << ": generalized or not is wrong");
    VP_CHECK(A ^ G, show(a) << " is not in its own generalization " << wn << wl << wj << wm);
    M1 b = gen_real(src, true, false);
    if (src.flip()) {
        b.sp = a.sp;
        (src.flip() ? b.n : g.n) = a.n;
        b.l = src.flip() ? a.l : b.l;
        b.j = src.flip() ? a.j : b.j;
        b.m = src.flip() ? a.m : b.m;
    }
    bool in = b.sp == a.sp && (wn || b.n == a.n) && (wl || b.l == a.l) && (wj || b.j == a.j) && (wm || b.m == a.m);
    VP_CHECK((make(b) ^ G) == in, show(b) << " in the generalization " << wn << wl << wj << wm << " of " << show(a) << " should be " << in);
}

VP_FACET("two-atom", 40000, 1000000, "both atoms of both states have quantum numbers") {
    M1 a[2], b[2], c[2];
    bool tight = !src.chance(1, 4);
    for (int i = 0; i < 2; ++i) {
        a[i] = gen1(src, tight);
        b[i] = src.flip() ? a[i] : gen1(src, tight);
        c[i] = src.flip() ? b[i] : gen1(src, tight);
    }
    if (src.chance(1, 5)) {
        b[0] = a[1];
        b[1] = a[0];
    }
    std::string what = show(a[0]) + show(a[1]) + " " + show(b[0]) + show(b[1]) + " " + show(c[0]) + show(c[1]);
    VP_NOTE(what);
    auto mk = [&](M1 *x, bool direct) {
        if (direct && !x[0].art && !x[1].art) {
            return StateTwo({{x[0].sp, x[1].sp}}, {{x[0].n, x[1].n}}, {{x[0].l, x[1].l}}, {{x[0].j, x[1].j}}, {{x[0].m, x[1].m}});
        }
        if (direct && x[0].art && x[1].art) {
            return StateTwo({{x[0].sp, x[1].sp}});
        }
        return StateTwo(make(x[0]), make(x[1]));
    };
    auto eq = [](M1 *x, M1 *y) { return x[0] == y[0] && x[1] == y[1]; };
    StateTwo A = mk(a, src.flip()), B = mk(b, src.flip()), C = mk(c, src.flip());
    relations(A, B, eq(a, b), what);
    relations(A, C, eq(a, c), what);
    relations(B, C, eq(b, c), what);
    relations_le(A, B, what);
    relations_le(B, C, what);
    transitive(A, B, C, what);
    relations(mk(a, true), mk(a, false), true, what + " (both constructions)");
    relations_le(mk(a, true), mk(a, false), what + " (both constructions)");
    std::set<StateTwo> s{A, B, C};
    std::unordered_set<StateTwo> u{A, B, C};
    size_t want = 3 - eq(a, b) - (eq(a, c) || eq(b, c));
    VP_CHECK(s.size() == want && u.size() == want, what << ": sets hold " << s.size() << " and " << u.size() << " states instead of " << want);
    std::ostringstream os;
    os << A;
    VP_CHECK(A.str() == text(a[0]) + text(a[1]) && os.str() == A.str(), what << ": the text is '" << A.str() << "'");
    VP_CHECK(A.getFirstState() == make(a[0]) && A.getSecondState() == make(a[1]), what << ": the constituents changed");
    StateTwo X(A.getSecondState(), A.getFirstState());
    VP_CHECK(X.getFirstState() == make(a[1]) && X.getSecondState() == make(a[0]) && (X == A) == (a[0] == a[1]), what << ": exchange is wrong");
    VP_CHECK(StateTwo(X.getSecondState(), X.getFirstState()) == A, what << ": exchanging twice is not the identity");
    VP_CHECK((A.isArtificial() == std::array<bool, 2>{{a[0].art, a[1].art}}) && A.isArtificial(0) == a[0].art && A.isArtificial(1) == a[1].art, what << ": isArtificial");
    VP_CHECK((A.isGeneralized() == std::array<bool, 2>{{false, false}}) && !A.isGeneralized(0) && !A.isGeneralized(1), what << ": isGeneralized");
    for (int i = 0; i < 2; ++i) {
        if (a[i].art) {
            VP_CHECK(A.getLabel(i) == a[i].sp, what << ": label of atom " << i);
            VP_CHECK(vp::throws([&] { A.getN(i); }) && vp::throws([&] { A.getN(); }) && vp::throws([&] { A.getSpecies(i); }) && vp::throws([&] { A.getReflected(); }), what << ": artificial atom " << i << " reported quantum numbers");
        } else {
            VP_CHECK(A.getN(i) == a[i].n && A.getL(i) == a[i].l && A.getJ(i) == a[i].j && A.getM(i) == a[i].m && A.getS(i) == spin(a[i].sp) && A.getSpecies(i) == a[i].sp && A.getElement(i) == element(a[i].sp),
                     what << ": properties of atom " << i);
            VP_CHECK(vp::throws([&] { A.getLabel(i); }) && vp::throws([&] { A.getLabel(); }), what << ": label of a real state");
        }
    }
    if (a[0].art && a[1].art) {
        VP_CHECK((A.getLabel() == std::array<std::string, 2>{{a[0].sp, a[1].sp}}), what << ": labels");
    }
    if (a[0].art || a[1].art) {
        return;
    }
    vp::nontrivial(!b[0].art && !b[1].art);
    VP_CHECK((A.getN() == std::array<int, 2>{{a[0].n, a[1].n}}) && (A.getL() == std::array<int, 2>{{a[0].l, a[1].l}}) && (A.getJ() == std::array<float, 2>{{a[0].j, a[1].j}}) &&
                 (A.getM() == std::array<float, 2>{{a[0].m, a[1].m}}) && (A.getS() == std::array<float, 2>{{spin(a[0].sp), spin(a[1].sp)}}) &&
                 (A.getSpecies() == std::array<std::string, 2>{{a[0].sp, a[1].sp}}) && (A.getElement() == std::array<std::string, 2>{{element(a[0].sp), element(a[1].sp)}}),
             what << ": properties of the pair");
    StateTwo R = A.getReflected();
    VP_CHECK(R == StateTwo(A.getFirstState().getReflected(), A.getSecondState().getReflected()), what << ": the reflected pair is " << R);
    VP_CHECK(R.getM(0) == -a[0].m && R.getM(1) == -a[1].m, what << ": the reflected pair is " << R);
    VP_CHECK(R.getReflected() == A && R.getReflected().str() == A.str() && R.getReflected().getHash() == A.getHash(), what << ": reflecting twice gives " << R.getReflected());
    // wildcards
    bool w[2][4];
    for (auto &x : w) {
        for (bool &y : x) {
            y = src.flip();
        }
    }
    StateTwo G(a[0].sp == a[1].sp ? std::array<std::string, 2>{{a[0].sp, a[1].sp}} : std::array<std::string, 2>{{a[0].sp, a[1].sp}}, {{w[0][0] ? ARB : a[0].n, w[1][0] ? ARB : a[1].n}},
               {{w[0][1] ? ARB : a[0].l, w[1][1] ? ARB : a[1].l}}, {{w[0][2] ? ARB : a[0].j, w[1][2] ? ARB : a[1].j}}, {{w[0][3] ? ARB : a[0].m, w[1][3] ? ARB : a[1].m}});
    for (int i = 0; i < 2; ++i) {
        bool g = w[i][0] || w[i][1] || w[i][2] || w[i][3];
        VP_CHECK(G.isGeneralized(i) == g && G.isGeneralized()[i] == g, what << ": generalized flag of atom " << i);
    }
    bool in = true;
    for (int i = 0; i < 2; ++i) {
        in = in && !b[i].art && b[i].sp == a[i].sp && (w[i][0] || b[i].n == a[i].n) && (w[i][1] || b[i].l == a[i].l) && (w[i][2] || b[i].j == a[i].j) && (w[i][3] || b[i].m == a[i].m);
    }
    if (!b[0].art && !b[1].art) {
        VP_CHECK((B ^ G) == in, what << ": membership of the second in a generalization of the first should be " << in);
    }
    VP_CHECK(A ^ G, what << ": not in its own generalization");
    (void)wildcard;
}

VP_FACET("energies", 6000, 100000, "both levels are tabulated") {
    M1 a[2] = {gen_real(src, false, true), gen_real(src, false, true)};
    std::string what = show(a[0]) + show(a[1]);
    VP_NOTE(what);
    StateTwo A(make(a[0]), make(a[1]));
    double e[2], ns[2];
    for (int i = 0; i < 2; ++i) {
        auto w = qdm::golden().level(a[i].sp, a[i].n, a[i].l, a[i].j);
        if (!w || !(qdm::golden().condition(a[i].sp, a[i].n, a[i].l, a[i].j) < 1e5)) {
            throw vp::Discard();
        }
        e[i] = w->energy;
        ns[i] = w->nstar;
        VP_CHECK(vp::near(make(a[i]).getEnergy(), e[i], 1e-8) && vp::near(A.getEnergy(i), e[i], 1e-8), what << ": energy of atom " << i);
        VP_CHECK(vp::near(make(a[i]).getNStar(), ns[i], 1e-9) && vp::near(A.getNStar(i), ns[i], 1e-9) && A.getNStar()[i] == A.getNStar(i), what << ": effective quantum number of atom " << i);
    }
    vp::nontrivial();
    VP_CHECK(vp::near(A.getEnergy(), e[0] + e[1], 1e-8), what << ": pair energy " << A.getEnergy() << " instead of " << e[0] + e[1]);
    static thread_local MatrixElementCache cache;
    VP_CHECK(A.getEnergy(cache) == A.getEnergy() && A.getNStar(cache) == A.getNStar(), what << ": energies through a matrix element cache differ");
    // a user database
    if (src.chance(1, 20)) {
        static const std::string file = [] {
            qdm::Db d = qdm::golden();
            for (auto &s : d.ritz) {
                for (auto &r : s.second) {
                    r.second.d0 += 0.125;
                }
            }
            std::string dir = vp::fresh_dir("c09");
            std::ofstream(dir + "/db.sql") << qdm::to_sql(d, 0);
            return dir + "/db.sql";
        }();
        static thread_local MatrixElementCache other;
        other.setDefectDB(file);
        for (int i = 0; i < 2; ++i) {
            double x = make(a[i]).getNStar(other), y = make(a[i]).getNStar();
            VP_CHECK(std::abs(y - x - 0.125) < 0.05, what << ": the effective quantum number ignores the cache's database: " << x << " and " << y);
            VP_CHECK(A.getNStar(other)[i] == x && A.getNStar(i, other) == x, what << ": the pair's effective quantum number ignores the cache's database");
            VP_CHECK(A.getEnergy(i, other) == make(a[i]).getEnergy(other), what << ": energies with a user database");
        }
        VP_CHECK(vp::near(A.getEnergy(other), make(a[0]).getEnergy(other) + make(a[1]).getEnergy(other), 1e-13), what << ": pair energy with a user database");
        VP_CHECK(A.getEnergy(cache) == A.getEnergy(), what << ": switching the database back changed the energies");
        vp::label("user database");
    }
}

namespace {
StateOneOld old1(const M1 &s) { return StateOneOld(s.sp, s.n, s.l, s.j, s.m); }
bool same_old(const StateOneOld &a, const M1 &b) {
    return a.n == b.n && a.l == b.l && a.j == b.j && a.m == b.m && a.species == b.sp && a.element == element(b.sp) && a.s == spin(b.sp) && a.getN() == b.n && a.getL() == b.l && a.getJ() == b.j && a.getM() == b.m && a.getSpecies() == b.sp;
}
} // namespace

VP_FACET("legacy-one-atom", 30000, 600000, "the states differ") {
    bool tight = !src.chance(1, 4);
    M1 a = gen_real(src, tight, false), b = gen_real(src, tight, false), c = gen_real(src, tight, false);
    b.sp = c.sp = a.sp; // legacy basis states are compared within one species
    if (src.chance(1, 4)) {
        b = a;
    }
    std::string what = show(a) + " " + show(b) + " " + show(c);
    VP_NOTE(what);
    StateOneOld A = old1(a), B = old1(b), C = old1(c);
    A.idx = static_cast<idx_t>(src.pick(0, 5));
    relations(A, B, a == b, what);
    relations(A, C, a == c, what);
    transitive(A, B, C, what);
    if (a == b) {
        VP_CHECK(std::hash<StateOneOld>{}(A) == std::hash<StateOneOld>{}(B), what << ": hashes of equal states differ");
    }
    std::set<StateOneOld> s{A, B, C};
    std::unordered_set<StateOneOld> u{A, B, C};
    size_t want = 3 - (a == b) - (a == c || b == c);
    VP_CHECK(s.size() == want && u.size() == want, what << ": sets hold " << s.size() << " and " << u.size() << " states");
    VP_CHECK(same_old(A, a), what << ": properties of a legacy state");
    std::ostringstream os;
    os << A;
    VP_CHECK(os.str() == text(a), what << ": legacy text '" << os.str() << "'");
    StateOneOld D(7, a.n, a.l, a.j, a.m), E(a.n, a.l, a.j, a.m);
    VP_CHECK(D.idx == 7 && D == A && E == A && E.idx == 0 && D.n == a.n && D.l == a.l && D.j == a.j && D.m == a.m, what << ": legacy constructors");
    bool wn = src.flip(), wl = src.flip(), wj = src.flip(), wm = src.flip();
    StateOneOld G(a.sp, wn ? ARB : a.n, wl ? ARB : a.l, wj ? ARB : a.j, wm ? ARB : a.m);
    bool in = (wn || b.n == a.n) && (wl || b.l == a.l) && (wj || b.j == a.j) && (wm || b.m == a.m);
    VP_CHECK((B ^ G) == in && (A ^ G), what << ": legacy wildcard membership should be " << in);
    vp::nontrivial(!(a == b));
}

VP_FACET("legacy-two-atom", 30000, 600000, "the two atoms differ") {
    bool tight = !src.chance(1, 4);
    M1 a[2], b[2], c[2];
    for (int i = 0; i < 2; ++i) {
        a[i] = gen_real(src, tight, false);
        b[i] = src.flip() ? a[i] : gen_real(src, tight, false);
        c[i] = src.flip() ? b[i] : gen_real(src, tight, false);
        b[i].sp = c[i].sp = a[i].sp;
    }
    std::string what = show(a[0]) + show(a[1]) + " " + show(b[0]) + show(b[1]) + " " + show(c[0]) + show(c[1]);
    VP_NOTE(what);
    auto mk = [&](M1 *x, long how) {
        if (how == 0) {
            return StateTwoOld(old1(x[0]), old1(x[1]));
        }
        if (how == 1) {
            return StateTwoOld(static_cast<idx_t>(3), old1(x[0]), old1(x[1]));
        }
        if (how == 2) {
            StateTwoOld s;
            s.setFirstState(old1(x[0]));
            s.setSecondState(old1(x[1]));
            return s;
        }
        return StateTwoOld({{x[0].sp, x[1].sp}}, {{x[0].n, x[1].n}}, {{x[0].l, x[1].l}}, {{x[0].j, x[1].j}}, {{x[0].m, x[1].m}});
    };
    auto eq = [](M1 *x, M1 *y) { return x[0] == y[0] && x[1] == y[1]; };
    long how = src.pick(0, 3);
    StateTwoOld A = mk(a, how), B = mk(b, 3), C = mk(c, 3);
    VP_NOTE(" how " << how);
    relations(A, B, eq(a, b), what);
    relations(A, C, eq(a, c), what);
    relations(B, C, eq(b, c), what);
    transitive(A, B, C, what);
    if (eq(a, b)) {
        VP_CHECK(std::hash<StateTwoOld>{}(A) == std::hash<StateTwoOld>{}(B), what << ": hashes of equal states differ");
    }
    for (int i = 0; i < 2; ++i) {
        VP_CHECK(A.n[i] == a[i].n && A.l[i] == a[i].l && A.j[i] == a[i].j && A.m[i] == a[i].m && A.getN()[i] == a[i].n && A.getL()[i] == a[i].l && A.getJ()[i] == a[i].j && A.getM()[i] == a[i].m, what << ": quantum numbers of atom " << i);
        VP_CHECK(A.species[i] == a[i].sp && A.getSpecies()[i] == a[i].sp && A.element[i] == element(a[i].sp) && A.s[i] == spin(a[i].sp), what << ": species, element or spin of atom " << i << " is " << A.species[i] << "," << A.element[i] << "," << A.s[i]);
    }
    VP_CHECK(same_old(A.getFirstState(), a[0]) && same_old(A.getSecondState(), a[1]) && same_old(A.first(), a[0]) && same_old(A.second(), a[1]), what << ": constituents of a legacy pair");
    std::ostringstream os;
    os << A;
    VP_CHECK(os.str() == "|" + text(a[0], false) + "; " + text(a[1], false) + ">", what << ": legacy pair text '" << os.str() << "'");
    StateTwoOld O = A.order();
    bool swap = A.second() < A.first();
    VP_CHECK(same_old(O.first(), a[swap ? 1 : 0]) && same_old(O.second(), a[swap ? 0 : 1]), what << ": ordering the pair gives " << O);
    VP_CHECK(!(O.second() < O.first()), what << ": the ordered pair is not ordered");
    StateTwoOld S(A.getSecondState(), A.getFirstState());
    if (!(a[0].n == a[1].n && a[0].l == a[1].l && a[0].j == a[1].j && a[0].m == a[1].m)) {
        VP_CHECK(S.order() == O && !(S == A), what << ": the ordered pair depends on the order of the atoms");
        vp::nontrivial();
    }
    VP_CHECK(StateTwoOld(S.getSecondState(), S.getFirstState()) == A, what << ": exchanging twice");
    bool w[2][4];
    for (auto &x : w) {
        for (bool &y : x) {
            y = src.flip();
        }
    }
    StateTwoOld G({{w[0][0] ? ARB : a[0].n, w[1][0] ? ARB : a[1].n}}, {{w[0][1] ? ARB : a[0].l, w[1][1] ? ARB : a[1].l}}, {{w[0][2] ? ARB : a[0].j, w[1][2] ? ARB : a[1].j}}, {{w[0][3] ? ARB : a[0].m, w[1][3] ? ARB : a[1].m}});
    bool in = true;
    for (int i = 0; i < 2; ++i) {
        in = in && (w[i][0] || b[i].n == a[i].n) && (w[i][1] || b[i].l == a[i].l) && (w[i][2] || b[i].j == a[i].j) && (w[i][3] || b[i].m == a[i].m);
    }
    VP_CHECK((B ^ G) == in && (A ^ G), what << ": legacy pair wildcard membership should be " << in);
    StateTwoOld I(static_cast<idx_t>(9), {{a[0].n, a[1].n}}, {{a[0].l, a[1].l}}, {{a[0].j, a[1].j}}, {{a[0].m, a[1].m}});
    VP_CHECK(I.idx == 9 && I == A, what << ": indexed legacy constructor");
}

VP_FACET("legacy-energies", 3000, 60000, "both levels are tabulated") {
    M1 a[2] = {gen_real(src, false, true), gen_real(src, false, true)};
    std::string what = show(a[0]) + show(a[1]);
    VP_NOTE(what);
    double e[2], ns[2];
    for (int i = 0; i < 2; ++i) {
        auto w = qdm::golden().level(a[i].sp, a[i].n, a[i].l, a[i].j);
        if (!w || !(qdm::golden().condition(a[i].sp, a[i].n, a[i].l, a[i].j) < 1e5)) {
            throw vp::Discard();
        }
        e[i] = w->energy;
        ns[i] = w->nstar;
        VP_CHECK(vp::near(old1(a[i]).getEnergy(), e[i], 1e-8) && vp::near(old1(a[i]).getNStar(), ns[i], 1e-9), what << ": legacy energy of atom " << i);
    }
    StateTwoOld A(old1(a[0]), old1(a[1]));
    VP_CHECK(vp::near(A.getEnergy(), e[0] + e[1], 1e-8), what << ": legacy pair energy");
    VP_CHECK(vp::near(A.getNStar()[0], ns[0], 1e-9) && vp::near(A.getNStar()[1], ns[1], 1e-9), what << ": legacy pair effective quantum numbers");
    vp::nontrivial();
}
