// C18: symmetry sectors partition the unrestricted problem; restrictions and explicit states select exactly
// the states they name.
#include "sysmodel.hpp"

namespace {
using sm::cd;
using sm::Mat;
using sm::One;
using sm::Two;
constexpr double NEVER = std::numeric_limits<double>::max();
const float ANY = static_cast<float>(ARB);

// --- symmetry operations as matrices on a list of states -----------------------------------------
template <typename State>
struct Space {
    std::vector<State> st;
    std::map<State, Eigen::Index> at;
    explicit Space(std::vector<State> list) : st(std::move(list)) {
        for (size_t i = 0; i < st.size(); ++i) {
            at[st[i]] = static_cast<Eigen::Index>(i);
        }
    }
    Eigen::Index size() const { return static_cast<Eigen::Index>(st.size()); }
    Mat zero() const { return Mat::Zero(size(), size()); }
};
int parity(double x) { return std::lround(std::abs(x)) % 2 ? -1 : 1; }
// reflection on the xz plane: |l j m> -> (-1)^(l+j-m) |l j -m>, up to the choice of the overall phase
Mat mirror(const Space<StateOne> &s) {
    Mat o = s.zero();
    for (Eigen::Index i = 0; i < s.size(); ++i) {
        const StateOne &x = s.st[i];
        StateOne y(x.getSpecies(), x.getN(), x.getL(), x.getJ(), -x.getM());
        auto it = s.at.find(y);
        if (it != s.at.end()) {
            o(it->second, i) = parity(x.getL() + x.getJ() - x.getM());
        }
    }
    return o;
}
Mat mirror(const Space<StateTwo> &s) {
    Mat o = s.zero();
    for (Eigen::Index i = 0; i < s.size(); ++i) {
        StateOne a = s.st[i].getFirstState(), b = s.st[i].getSecondState();
        StateOne c(a.getSpecies(), a.getN(), a.getL(), a.getJ(), -a.getM()), d(b.getSpecies(), b.getN(), b.getL(), b.getJ(), -b.getM());
        auto it = s.at.find(StateTwo(c, d));
        if (it != s.at.end()) {
            o(it->second, i) = parity(a.getL() + a.getJ() - a.getM()) * parity(b.getL() + b.getJ() - b.getM());
        }
    }
    return o;
}
Mat exchange(const Space<StateTwo> &s, bool with_parity) {
    Mat o = s.zero();
    for (Eigen::Index i = 0; i < s.size(); ++i) {
        StateOne a = s.st[i].getFirstState(), b = s.st[i].getSecondState();
        auto it = s.at.find(StateTwo(b, a));
        if (it != s.at.end()) {
            o(it->second, i) = with_parity ? parity(a.getL() + b.getL()) : 1;
        }
    }
    return o;
}
Mat project(const Mat &o, cd lambda) { return (Mat::Identity(o.rows(), o.cols()) + o / lambda) / 2; }
Mat project(const Space<StateOne> &s, const std::set<float> &m) {
    Mat o = s.zero();
    for (Eigen::Index i = 0; i < s.size(); ++i) {
        o(i, i) = m.count(s.st[i].getM());
    }
    return o;
}
Mat project(const Space<StateTwo> &s, const std::set<int> &m) {
    Mat o = s.zero();
    for (Eigen::Index i = 0; i < s.size(); ++i) {
        o(i, i) = m.count(static_cast<int>(std::lround(s.st[i].getM(0) + s.st[i].getM(1))));
    }
    return o;
}
template <typename State>
std::vector<State> listed(const std::set<State> &s) {
    return std::vector<State>(s.begin(), s.end());
}
template <typename State>
std::vector<State> listed(const std::vector<State> &s) {
    return s;
}
// basis of a system, with rows as in the space
template <typename System, typename State>
Mat embedded(System &sys, const Space<State> &s, const std::string &what) {
    Mat B = sm::dense(sys.getBasisvectors());
    auto st = listed(sys.getStates());
    Mat r = Mat::Zero(s.size(), B.cols());
    VP_CHECK(B.rows() == static_cast<Eigen::Index>(st.size()), what << ": " << st.size() << " states, but basis vectors of length " << B.rows());
    for (size_t i = 0; i < st.size(); ++i) {
        auto it = s.at.find(st[i]);
        VP_CHECK(it != s.at.end(), what << ": unexpected state " << st[i].str());
        r.row(it->second) = B.row(static_cast<Eigen::Index>(i));
    }
    return r;
}
// one sector: its basis spans the range of the projector, its Hamiltonian is the one of the full system
template <typename System, typename State>
Eigen::Index sector(System &sys, const Space<State> &s, const Mat &P, const Mat &K, const std::string &what) {
    double dim = std::real(P.trace());
    auto want = static_cast<Eigen::Index>(std::lround(dim));
    if (std::abs(dim - static_cast<double>(want)) > 1e-9) {
        throw std::logic_error("the projector of the model is wrong: dimension " + std::to_string(dim));
    }
    if (want == 0) {
        System empty = sys;
        VP_CHECK(vp::throws([&] { empty.buildBasis(); }), what << ": a sector without states is not refused");
        return 0;
    }
    Mat B = embedded(sys, s, what);
    VP_CHECK(B.cols() == want, what << ": " << B.cols() << " basis vectors instead of " << want);
    double d = sm::maxabs(B.adjoint() * B - Mat::Identity(B.cols(), B.cols()));
    VP_CHECK(d < 1e-9, what << ": the basis is not orthonormal (" << d << ")");
    d = sm::maxabs(P * B - B);
    VP_CHECK(d < 1e-8, what << ": basis vectors do not have the symmetry (" << d << ")");
    {
        auto st = listed(sys.getStates());
        std::set<State> have(st.begin(), st.end());
        for (Eigen::Index i = 0; i < s.size(); ++i) {
            bool in = std::real(P(i, i)) > 1e-9;
            // pair states whose amplitudes cancel may remain
            VP_CHECK(in == (have.count(s.st[i]) != 0) || (!in && std::is_same<State, StateTwo>::value), what << ": the state " << s.st[i].str() << (in ? " is missing" : " does not belong to the sector"));
        }
    }
    Mat H = sm::dense(sys.getHamiltonian()), R = B.adjoint() * K * B;
    double lim = 1e-10 * sm::maxabs(K) + 1e-11;
    VP_CHECK(H.rows() == want && sm::maxabs(H - R) < lim, what << ": the Hamiltonian deviates from the one of the unrestricted system by " << sm::maxabs(H - R));
    return want;
}
template <typename System, typename State>
Mat canonical(System &sys, const Space<State> &s, const std::string &what) {
    Mat H = sm::dense(sys.getHamiltonian());
    Mat B = embedded(sys, s, what);
    return B * H * B.adjoint();
}
// adds up the sectors in random order
template <typename System, typename State>
void together(vp::Src &src, std::vector<System> sectors, const Space<State> &s, const Mat &K, const std::string &what) {
    int how = static_cast<int>(src.choice(2)); // 0: not built, 1: built, 2: diagonalised
    for (auto &x : sectors) {
        if (how == 1) {
            x.buildHamiltonian();
        } else if (how == 2) {
            x.diagonalize();
        }
    }
    for (size_t i = sectors.size(); i > 1; --i) {
        std::swap(sectors[i - 1], sectors[src.choice(i - 1)]);
    }
    System sum = sectors[0];
    for (size_t i = 1; i < sectors.size(); ++i) {
        sum.add(sectors[i]);
    }
    double lim = 1e-10 * sm::maxabs(K) + 1e-11;
    std::string w = what + " (sum of " + std::to_string(sectors.size()) + " sectors, " + (how == 0 ? "unbuilt" : how == 1 ? "built" : "diagonalised") + ")";
    VP_CHECK(static_cast<Eigen::Index>(sum.getNumBasisvectors()) == s.size() && static_cast<Eigen::Index>(sum.getNumStates()) == s.size(), w << ": " << sum.getNumBasisvectors() << " basis vectors of " << sum.getNumStates() << " states instead of " << s.size());
    double d = sm::maxabs(canonical(sum, s, w) - K);
    VP_CHECK(d < lim, w << ": the Hamiltonian deviates from the one of the unrestricted system by " << d);
    if (how == 2) {
        Mat H = sm::dense(sum.getHamiltonian());
        std::vector<double> ev;
        for (Eigen::Index i = 0; i < H.rows(); ++i) {
            ev.push_back(std::real(H(i, i)));
        }
        double e = sm::distance(ev, sm::spectrum(K));
        VP_CHECK(e < 10 * lim, w << ": the energies deviate from the ones of the unrestricted system by " << e);
    }
}
std::vector<std::set<float>> partition(vp::Src &src, const std::set<float> &m, bool symmetric) {
    std::map<size_t, std::set<float>> groups;
    size_t n = 1 + src.choice(3);
    std::map<float, size_t> chosen;
    for (float x : m) {
        size_t g = symmetric && chosen.count(-x) ? chosen[-x] : src.choice(n);
        chosen[x] = g;
        groups[g].insert(x);
    }
    std::vector<std::set<float>> r;
    for (auto &g : groups) {
        r.push_back(g.second);
    }
    return r;
}
// --- one atom ------------------------------------------------------------------------------------
template <typename S>
bool one_atom(vp::Src &src) {
    sm::Quiet quiet;
    One o = sm::gen_one(src, 40, sm::is_complex<S>, true);
    bool rot = src.flip(), refl = !rot || src.chance(1, 3);
    double s = mx::spin(o.species);
    bool half = std::fmod(s, 1.) != 0;
    if (rot) {
        o.e[0] = o.e[1] = o.b[0] = o.b[1] = 0;
        // all fields along an axis which is not z do not conserve m
    }
    if (refl) {
        o.e[1] = 0;
        o.b = {{0, sm::is_complex<S> && !rot ? o.b[1] : 0., 0}};
        o.m.clear();
        if (src.chance(1, 3)) {
            for (double m = std::fmod(s, 1.); m <= 4; m += 1) {
                if (src.flip()) {
                    o.m.insert(static_cast<float>(m));
                    o.m.insert(static_cast<float>(-m));
                }
            }
        }
        if (o.states().empty()) {
            throw vp::Discard();
        }
    }
    VP_NOTE(o.str() << (rot ? " rotation" : "") << (refl ? " reflection" : "") << (sm::is_complex<S> ? " complex" : " real"));
    std::string what = o.str();
    Space<StateOne> sp(o.states());
    auto full = o.make<S>();
    Mat K = canonical(full, sp, what);
    if (refl && half && !sm::is_complex<S>) {
        auto sys = o.make<S>();
        VP_CHECK(vp::throws([&] {
                     sys.setConservedParityUnderReflection(src.flip() ? EVEN : ODD);
                     sys.getHamiltonian();
                 }),
                 what << ": reflection symmetric states of half-integer spin need complex numbers, but are built with real ones");
        vp::label("reflection of half-integer spin refused for real numbers");
        return true;
    }
    std::set<float> ms;
    for (auto &x : sp.st) {
        ms.insert(x.getM());
    }
    std::vector<std::set<float>> groups;
    if (rot) {
        groups = partition(src, ms, refl);
    } else {
        groups = {{ANY}};
    }
    if (refl && src.chance(1, 4)) { // states of both signs of m are needed
        One p = o;
        p.m.clear();
        for (auto &x : sp.st) {
            if (x.getM() > 0 || src.chance(1, 4)) {
                p.m.insert(x.getM());
            }
        }
        bool complete = true;
        auto st = p.states();
        std::set<StateOne> have(st.begin(), st.end());
        for (auto &x : st) {
            complete = complete && (x.getM() == 0 || have.count(StateOne(x.getSpecies(), x.getN(), x.getL(), x.getJ(), -x.getM())));
        }
        if (!complete) {
            auto sys = p.make<S>();
            sys.setConservedParityUnderReflection(src.flip() ? EVEN : ODD);
            VP_CHECK(vp::throws([&] { sys.buildBasis(); }), p.str() << ": reflection symmetry without the reflected states is not refused");
            vp::label("missing reflected states refused");
        }
    }
    if (refl && (src.flip())) { // a set of momenta that is not symmetric
        float x = 0;
        for (float y : ms) {
            if (y != 0) {
                x = y;
            }
        }
        if (x != 0) {
            auto sys = o.make<S>();
            bool first = src.flip();
            VP_CHECK(vp::throws([&] {
                         if (first) {
                             sys.setConservedParityUnderReflection(ODD);
                             sys.setConservedMomentaUnderRotation({x});
                         } else {
                             sys.setConservedMomentaUnderRotation({x});
                             sys.setConservedParityUnderReflection(ODD);
                         }
                     }),
                     what << ": reflection symmetry with only the momentum " << x << " is not refused");
            // the refused setting is not in force, the one before it is
            auto P = first ? project(mirror(sp), half ? cd(0, 1) : cd(-1)) : project(sp, std::set<float>{x});
            if (first || rot) {
                sector(sys, sp, P, K, what + " after a refused symmetry");
            }
            vp::label("refused combination");
        }
    }
    std::vector<SystemOne<S>> sectors;
    Eigen::Index total = 0;
    for (auto &g : groups) {
        for (int par : refl ? std::vector<int>{1, -1} : std::vector<int>{0}) {
            SystemOne<S> sys(o.species, sm::cache());
            bool early = src.flip(); // the symmetries may be set before or after the other settings
            auto symmetries = [&] {
                bool first = src.flip();
                if (par != 0 && first) {
                    sys.setConservedParityUnderReflection(par > 0 ? EVEN : ODD);
                }
                if (rot) {
                    sys.setConservedMomentaUnderRotation(g);
                }
                if (par != 0 && !first) {
                    sys.setConservedParityUnderReflection(par > 0 ? EVEN : ODD);
                }
            };
            if (early) {
                symmetries();
            }
            o.restrict(sys);
            o.settings(sys);
            if (!early) {
                symmetries();
            }
            Mat P = Mat::Identity(sp.size(), sp.size());
            if (rot) {
                P = P * project(sp, g);
            }
            if (par != 0) {
                P = P * project(mirror(sp), half ? cd(0, -par) : cd(par));
            }
            auto n = sector(sys, sp, P, K, what + (rot ? " m" + vp::show(g) : "") + (par > 0 ? " even" : par < 0 ? " odd" : ""));
            total += n;
            if (n > 0) {
                SystemOne<S> fresh(o.species, sm::cache());
                std::swap(sys, fresh);
                symmetries();
                o.restrict(sys);
                o.settings(sys);
                sectors.push_back(sys);
            }
        }
    }
    VP_CHECK(total == sp.size(), what << ": the sectors have " << total << " basis vectors in total instead of " << sp.size());
    together(src, sectors, sp, K, what);
    return sectors.size() > 1;
}
// --- pairs of atoms ------------------------------------------------------------------------------
struct Sym {
    bool permutation = false, inversion = false, reflection = false, rotation = false;
    std::string str() const { return std::string(permutation ? " permutation" : "") + (inversion ? " inversion" : "") + (reflection ? " reflection" : "") + (rotation ? " rotation" : ""); }
};
struct Choice {
    int p = 0, i = 0, r = 0;
    std::set<int> m;
    std::string str() const {
        std::ostringstream os;
        os << " sector";
        for (auto &x : {std::make_pair("p", p), std::make_pair("i", i), std::make_pair("r", r)}) {
            if (x.second != 0) {
                os << " " << x.first << (x.second > 0 ? "=even" : "=odd");
            }
        }
        if (!m.empty()) {
            os << " M" << vp::show(m);
        }
        return os.str();
    }
};
template <typename S>
void choose(vp::Src &src, SystemTwo<S> &sys, const Choice &c) {
    int order[4] = {0, 1, 2, 3};
    for (size_t k = 3; k > 0; --k) {
        std::swap(order[k], order[src.choice(k)]);
    }
    for (int k : order) {
        if (k == 0 && c.p != 0) {
            sys.setConservedParityUnderPermutation(c.p > 0 ? EVEN : ODD);
        } else if (k == 1 && c.i != 0) {
            sys.setConservedParityUnderInversion(c.i > 0 ? EVEN : ODD);
        } else if (k == 2 && c.r != 0) {
            sys.setConservedParityUnderReflection(c.r > 0 ? EVEN : ODD);
        } else if (k == 3 && !c.m.empty()) {
            sys.setConservedMomentaUnderRotation(c.m);
        }
    }
}
template <typename S>
SystemOne<S> symmetrised(vp::Src &src, const One &o, bool &both) { // even and odd one-atom states together
    auto even = o.make<S>(), odd = o.make<S>();
    even.setConservedParityUnderReflection(EVEN);
    odd.setConservedParityUnderReflection(ODD);
    both = true;
    bool e = !vp::throws([&] { SystemOne<S> c = even; c.buildBasis(); }), d = !vp::throws([&] { SystemOne<S> c = odd; c.buildBasis(); });
    if (!e || !d) {
        both = false;
        SystemOne<S> r = e ? even : odd;
        r.diagonalize();
        return r;
    }
    even.diagonalize();
    odd.diagonalize();
    if (src.flip()) {
        even.add(odd);
        return even;
    }
    odd.add(even);
    return odd;
}
bool halfint(const std::string &species) { return std::fmod(mx::spin(species), 1.) != 0; }
template <typename S>
bool pair(vp::Src &src) {
    sm::Quiet quiet;
    Sym sym;
    do {
        sym.permutation = src.flip();
        sym.inversion = src.chance(1, 3);
        sym.reflection = src.chance(1, 3);
        sym.rotation = !sym.reflection && src.flip();
    } while (!sym.permutation && !sym.inversion && !sym.reflection && !sym.rotation);
    Two t = sm::gen_two(src, 9, sm::is_complex<S>, sym.permutation || sym.inversion);
    if (sym.permutation || sym.inversion) {
        t.b = t.a;
    }
    double R = sm::gen_distance(src, sm::largest_n(t));
    bool complex = sm::is_complex<S>;
    t.surface = NEVER;
    t.green = false;
    for (One *o : {&t.a, &t.b}) {
        if (sym.inversion) {
            o->e = {{0, 0, 0}};
        }
        if (sym.reflection) {
            o->e[1] = 0;
            o->b = {{0, complex ? o->b[1] : 0., 0}};
            o->m.clear();
            while (o->states().size() > 10) {
                if (o->l.size() > 1) {
                    o->l.erase(std::prev(o->l.end()));
                } else if (o->n.size() > 1) {
                    o->n.erase(std::prev(o->n.end()));
                } else {
                    throw vp::Discard();
                }
            }
        }
        if (sym.rotation) {
            o->e[0] = o->e[1] = o->b[0] = o->b[1] = 0;
        }
        if (o->states().empty()) {
            throw vp::Discard();
        }
    }
    if ((halfint(t.a.species) || halfint(t.b.species)) && sym.reflection && !complex) {
        throw vp::Discard();
    }
    // the geometry
    t.order = static_cast<unsigned>(src.pick(3, sym.permutation ? 3 : 5));
    double th = sym.rotation ? (src.flip() ? 0 : std::acos(-1.)) : src.sym(3.2), ph = complex && !sym.rotation && !sym.reflection ? src.sym(3.2) : 0;
    if (!sym.rotation && t.order > 3) {
        t.order = std::min(t.order, 4u); // only the formulation with the Green tensor can do that
        t.green = true;
    }
    t.r = {{sym.rotation ? 0 : R * std::sin(th) * std::cos(ph), sym.rotation ? 0 : R * std::sin(th) * std::sin(ph), R * std::cos(th)}};
    if (t.r[1] != 0 || src.chance(1, 3)) {
        t.green = true;
        t.order = std::min(t.order, 4u);
    }
    if (src.chance(1, 5)) {
        t.r = {{0, 0, 0}};
        t.green = false;
    } else if (!sym.inversion && t.r[1] == 0 && src.chance(1, 4)) {
        if (sym.permutation && !sym.rotation) {
            t.r = {{0, 0, R}}; // otherwise the image of the other atom is in a different direction for the two atoms
        }
        t.green = true;
        t.order = std::min(t.order, 4u);
        t.surface = std::abs(t.r[2]) / 2 + R * src.logreal(0.05, 4);
    }
    VP_NOTE(t.str() << sym.str() << (complex ? " complex" : " real"));
    std::string what = t.str() + sym.str();

    bool both_a = true, both_b = true;
    SystemOne<S> a = sym.reflection ? symmetrised<S>(src, t.a, both_a) : t.a.make<S>();
    SystemOne<S> b = sym.permutation || sym.inversion ? a : sym.reflection ? symmetrised<S>(src, t.b, both_b) : t.b.make<S>();
    if (!both_a || !both_b) {
        throw vp::Discard();
    }
    if (src.chance(1, 3)) {
        a.diagonalize();
        if (sym.permutation || sym.inversion) {
            b = a;
        }
    }
    auto bare = [&] {
        SystemTwo<S> sys(a, b, sm::cache());
        t.geometry(sys);
        return sys;
    };
    // mixed pairs of integer and half-integer spins have no integer momentum
    if (halfint(t.a.species) != halfint(t.b.species)) {
        auto sys = bare();
        Choice c;
        c.r = sym.reflection ? 1 : 0;
        if (sym.rotation) {
            c.m = {0};
        }
        choose(src, sys, c);
        VP_CHECK(vp::throws([&] { sys.buildBasis(); }), what << ": a half-integer total momentum is not refused");
        vp::label("half-integer total momentum refused");
        return true;
    }
    auto plain = bare();
    Space<StateTwo> sp(listed(plain.getStates()));
    VP_CHECK(static_cast<Eigen::Index>(plain.getNumBasisvectors()) == sp.size(), what << ": " << plain.getNumBasisvectors() << " basis vectors of " << sp.size() << " states");
    Mat K = canonical(plain, sp, what);
    // sectors
    std::vector<Choice> todo = {Choice()};
    auto split = [&](auto f) {
        std::vector<Choice> r;
        for (auto &c : todo) {
            f(c, r);
        }
        todo = r;
    };
    auto signs = [&](int Choice::*which) {
        split([&](Choice c, std::vector<Choice> &r) {
            for (int x : {1, -1}) {
                c.*which = x;
                r.push_back(c);
            }
        });
    };
    if (sym.permutation) {
        signs(&Choice::p);
    }
    if (sym.inversion) {
        signs(&Choice::i);
    }
    if (sym.reflection) {
        signs(&Choice::r);
    }
    if (sym.rotation) {
        std::set<float> ms;
        for (auto &x : sp.st) {
            ms.insert(x.getM(0) + x.getM(1));
        }
        auto groups = partition(src, ms, false);
        split([&](Choice c, std::vector<Choice> &r) {
            for (auto &g : groups) {
                c.m.clear();
                for (float m : g) {
                    c.m.insert(static_cast<int>(std::lround(m)));
                }
                r.push_back(c);
            }
        });
    }
    std::vector<SystemTwo<S>> sectors;
    Eigen::Index total = 0;
    for (auto &c : todo) {
        auto sys = bare();
        choose(src, sys, c);
        Mat P = Mat::Identity(sp.size(), sp.size());
        if (c.p != 0) { // "even": antisymmetric
            P = P * project(exchange(sp, false), -c.p);
        }
        if (c.i != 0) { // "even": gerade, that is -1 for (-1)^(l1+l2) times the exchange of the atoms
            P = P * project(exchange(sp, true), -c.i);
        }
        if (c.r != 0) {
            P = P * project(mirror(sp), c.r);
        }
        if (!c.m.empty()) {
            P = P * project(sp, c.m);
        }
        auto n = sector(sys, sp, P, K, what + c.str());
        total += n;
        if (n > 0) {
            sys = bare();
            choose(src, sys, c);
            sectors.push_back(sys);
        }
    }
    VP_CHECK(total == sp.size(), what << ": the sectors have " << total << " basis vectors in total instead of " << sp.size());
    together(src, sectors, sp, K, what);
    vp::label("pair" + sym.str());
    return sectors.size() > 1 && sm::maxabs(K - Mat(K.diagonal().asDiagonal())) > 1e-6;
}

// pair sectors put together from one-atom sectors: even x even + odd x odd, even x odd + odd x even
template <typename S>
bool from_one_atom_sectors(vp::Src &src) {
    sm::Quiet quiet;
    bool complex = sm::is_complex<S>;
    Two t = sm::gen_two(src, 12, complex, src.flip());
    double R = sm::gen_distance(src, sm::largest_n(t));
    for (One *o : {&t.a, &t.b}) {
        o->e[1] = 0;
        o->b = {{0, complex ? o->b[1] : 0., 0}};
        o->m.clear();
        while (o->states().size() > 12 && o->l.size() > 1) {
            o->l.erase(std::prev(o->l.end()));
        }
        size_t n = o->states().size();
        if (n == 0 || n > 14 || (halfint(o->species) && !complex)) {
            throw vp::Discard();
        }
    }
    if (halfint(t.a.species) != halfint(t.b.species)) {
        throw vp::Discard();
    }
    double th = src.sym(3.2);
    t.order = 3;
    t.green = src.chance(1, 3);
    t.r = {{R * std::sin(th), 0, R * std::cos(th)}};
    if (src.chance(1, 3)) {
        t.order = 5;
        t.green = false;
        t.r = {{0, 0, R}};
    }
    VP_NOTE(t.str() << (complex ? " complex" : " real"));
    std::vector<SystemOne<S>> one[2];
    for (int k = 0; k < 2; ++k) {
        for (int par : {0, 1}) {
            auto s = (k == 0 ? t.a : t.b).make<S>();
            s.setConservedParityUnderReflection(par == 0 ? EVEN : ODD);
            if (vp::throws([&] { SystemOne<S> c = s; c.buildBasis(); })) {
                throw vp::Discard();
            }
            if (src.flip()) {
                s.diagonalize();
            }
            one[k].push_back(s);
        }
    }
    SystemTwo<S> plain = t.make<S>();
    Space<StateTwo> sp(listed(plain.getStates()));
    Mat K = canonical(plain, sp, t.str());
    Eigen::Index total = 0;
    std::vector<SystemTwo<S>> both;
    for (int same : {1, 0}) {
        SystemTwo<S> s(one[0][0], one[1][same ? 0 : 1], sm::cache()), u(one[0][1], one[1][same ? 1 : 0], sm::cache());
        bool late = src.flip();
        if (!late) {
            t.geometry(s);
            t.geometry(u);
        }
        s.add(u);
        if (late) {
            t.geometry(s);
        }
        // half-integer spins: even x even has the eigenvalue (-i)^2 = -1
        int lambda = (same ? 1 : -1) * (halfint(t.a.species) ? -1 : 1);
        auto copy = s;
        total += sector(s, sp, project(mirror(sp), lambda), K, t.str() + (same ? " equal parities" : " opposite parities"));
        both.push_back(copy);
    }
    VP_CHECK(total == sp.size(), t.str() << ": " << total << " basis vectors in total instead of " << sp.size());
    together(src, both, sp, K, t.str());
    return sm::maxabs(K - Mat(K.diagonal().asDiagonal())) > 1e-6;
}
// --- restrictions --------------------------------------------------------------------------------
struct Limits {
    bool energy = false;
    double lo = std::numeric_limits<double>::lowest(), hi = NEVER;
    std::set<int> n, l;
    std::set<float> j, m;
    bool has(const StateOne &x) const {
        return x.isArtificial() || ((n.empty() || n.count(x.getN())) && (l.empty() || l.count(x.getL())) && (j.empty() || j.count(x.getJ())) && (m.empty() || m.count(x.getM())));
    }
    bool has(const StateTwo &x) const { return has(x.getFirstState()) && has(x.getSecondState()); }
    bool has(double e) const { return !energy || (e > lo && e < hi); }
    bool numbers() const { return !n.empty() || !l.empty() || !j.empty() || !m.empty(); }
    bool any() const { return energy || numbers(); }
    std::string str() const {
        std::ostringstream os;
        os.precision(17);
        os << "{";
        if (energy) {
            os << "energy " << lo << ".." << hi;
        }
        os << " n" << vp::show(n) << " l" << vp::show(l) << " j" << vp::show(j) << " m" << vp::show(m) << "}";
        return os.str();
    }
    template <typename V, typename Range, typename Set>
    static void put(vp::Src &src, const std::set<V> &v, Range range, Set set) {
        if (v.empty()) {
            return;
        }
        bool contiguous = *v.rbegin() - *v.begin() == static_cast<V>(v.size() - 1) &&
            std::adjacent_find(v.begin(), v.end(), [](V a, V b) { return b - a != 1; }) == v.end();
        if (contiguous && src.flip()) {
            range(*v.begin(), *v.rbegin());
        } else {
            set(v);
        }
    }
    template <typename System>
    void apply(vp::Src &src, System &s) const {
        if (energy) {
            s.restrictEnergy(lo, hi);
        }
        put<int>(src, n, [&](int a, int b) { s.restrictN(a, b); }, [&](auto &x) { s.restrictN(x); });
        put<int>(src, l, [&](int a, int b) { s.restrictL(a, b); }, [&](auto &x) { s.restrictL(x); });
        put<float>(src, j, [&](float a, float b) { s.restrictJ(a, b); }, [&](auto &x) { s.restrictJ(x); });
        put<float>(src, m, [&](float a, float b) { s.restrictM(a, b); }, [&](auto &x) { s.restrictM(x); });
    }
};
template <typename V>
std::set<V> some(vp::Src &src, const std::set<V> &all, double extra) {
    std::set<V> r;
    if (!src.chance(1, 3)) {
        return r;
    }
    for (V x : all) {
        if (src.chance(2, 3)) {
            r.insert(x);
        }
    }
    if (src.chance(1, 4)) {
        r.insert(static_cast<V>(*all.rbegin() + extra)); // a value that does not occur
    }
    return r;
}
// bounds in the gaps between the energies
void bounds(vp::Src &src, std::vector<double> e, Limits &l) {
    std::sort(e.begin(), e.end());
    std::vector<double> gaps = {e.front() - 1};
    for (size_t i = 1; i < e.size(); ++i) {
        if (e[i] - e[i - 1] > 1e-6) {
            gaps.push_back(src.chance(1, 4) ? e[i] - 2e-7 : src.chance(1, 4) ? e[i - 1] + 2e-7 : (e[i] + e[i - 1]) / 2);
        }
    }
    gaps.push_back(e.back() + 1);
    size_t a = src.choice(gaps.size() - 2), b = a + 1 + src.choice(gaps.size() - 2 - a);
    l.energy = true;
    l.lo = src.chance(1, 5) ? std::numeric_limits<double>::lowest() : gaps[a];
    l.hi = src.chance(1, 5) ? NEVER : gaps[b];
    if (l.lo == std::numeric_limits<double>::lowest() && l.hi == NEVER) {
        l.energy = false;
    }
}
Limits limits(vp::Src &src, const std::vector<StateOne> &st, const std::vector<double> &energies) {
    Limits r;
    std::set<int> n, l;
    std::set<float> j, m;
    for (auto &s : st) {
        if (!s.isArtificial()) {
            n.insert(s.getN());
            l.insert(s.getL());
            j.insert(s.getJ());
            m.insert(s.getM());
        }
    }
    r.n = some(src, n, 1);
    r.l = some(src, l, 1);
    r.j = some(src, j, 1);
    r.m = some(src, m, 1);
    if (src.flip()) {
        bounds(src, energies, r);
    }
    return r;
}
// restricting after the basis was built: drops the states and the vectors outside of the limits, then the vectors
// and the states that hardly contribute
template <typename System>
bool later(vp::Src &src, System &sys, const Limits &l, double norm, const std::string &what) {
    auto st = listed(sys.getStates());
    Mat B = sm::dense(sys.getBasisvectors()), H = sm::dense(sys.getHamiltonian());
    std::vector<Eigen::Index> rows, cols;
    bool close = false;
    auto keep = [&](double sq) {
        if (std::abs(sq - norm) < 1e-9) {
            close = true;
        }
        return sq > norm;
    };
    for (size_t i = 0; i < st.size(); ++i) {
        if (l.has(st[i])) {
            rows.push_back(static_cast<Eigen::Index>(i));
        }
    }
    auto pick = [&](const Mat &m, const std::vector<Eigen::Index> &r, const std::vector<Eigen::Index> &c) {
        Mat x(static_cast<Eigen::Index>(r.size()), static_cast<Eigen::Index>(c.size()));
        for (Eigen::Index i = 0; i < x.rows(); ++i) {
            for (Eigen::Index k = 0; k < x.cols(); ++k) {
                x(i, k) = m(r[i], c[k]);
            }
        }
        return x;
    };
    for (Eigen::Index k = 0; k < B.cols(); ++k) {
        double sq = 0;
        for (auto i : rows) {
            sq += std::norm(B(i, k));
        }
        double e = std::real(H(k, k));
        if (l.energy && (std::abs(e - l.lo) < 1e-8 || std::abs(e - l.hi) < 1e-8)) {
            close = true;
        }
        if (l.has(e) && keep(sq)) {
            cols.push_back(k);
        }
    }
    Mat b = pick(B, rows, cols);
    std::vector<Eigen::Index> rest;
    for (Eigen::Index i = 0; i < b.rows(); ++i) {
        if (keep(b.row(i).squaredNorm())) {
            rest.push_back(rows[i]);
        }
    }
    if (close) {
        throw vp::Discard();
    }
    if (rest.empty()) {
        VP_CHECK(vp::throws([&] { l.apply(src, sys); sys.buildBasis(); }), what << ": nothing is left after restricting to " << l.str() << ", but no exception is thrown");
        vp::label("nothing left");
        // the refused restriction has no effect
        decltype(st) still;
        VP_CHECK(!vp::throws([&] { still = listed(sys.getStates()); }) && still == st, what << " cannot be used any more or has changed after a restriction to nothing (" << l.str() << ") was refused");
        VP_CHECK(static_cast<Eigen::Index>(sys.getNumBasisvectors()) == B.cols() && sm::maxabs(sm::dense(sys.getBasisvectors()) - B) < 1e-12 && sm::maxabs(sm::dense(sys.getHamiltonian()) - H) < 1e-10 * sm::maxabs(H) + 1e-12, what << ": the basis vectors or the Hamiltonian have changed after a restriction to nothing (" << l.str() << ") was refused");
        return true;
    }
    l.apply(src, sys);
    decltype(st) now;
    try {
        now = listed(sys.getStates());
    } catch (const std::exception &e) {
        std::ostringstream os;
        for (auto i : rows) {
            os << " " << st[i].str() << " " << B.row(i).cwiseAbs2();
        }
        VP_CHECK(false, what << " restricted to " << l.str() << " fails although " << rest.size() << " states are left: " << e.what() << "; states and weights:" << os.str());
    }
    std::vector<typename std::decay<decltype(st[0])>::type> want;
    for (auto i : rest) {
        want.push_back(st[i]);
    }
    VP_CHECK(now == want, what << " restricted to " << l.str() << ": " << now.size() << " states instead of " << want.size());
    double d = sm::maxabs(sm::dense(sys.getBasisvectors()) - pick(B, rest, cols));
    VP_CHECK(sys.getNumBasisvectors() == cols.size() && d < 1e-12, what << " restricted to " << l.str() << ": " << sys.getNumBasisvectors() << " basis vectors instead of " << cols.size() << ", deviation " << d);
    d = sm::maxabs(sm::dense(sys.getHamiltonian()) - pick(H, cols, cols));
    VP_CHECK(d < 1e-10 * sm::maxabs(H) + 1e-12, what << " restricted to " << l.str() << ": the Hamiltonian deviates from the one before by " << d);
    return rest.size() < st.size() || cols.size() < static_cast<size_t>(B.cols());
}
template <typename S>
bool restricted_one(vp::Src &src) {
    sm::Quiet quiet;
    One o = sm::gen_one(src, 40, sm::is_complex<S>, false);
    if (src.flip()) { // limits may exceed what exists
        if (src.flip()) {
            o.l.insert(-1);
        }
        if (src.flip()) {
            o.l.insert(*o.n.rbegin() + static_cast<int>(src.choice(2)));
        }
        double f = std::fmod(mx::spin(o.species), 1.);
        if (src.chance(1, 3)) {
            for (double j = f - 1; j < 8; j += 1) {
                o.j.insert(static_cast<float>(j));
            }
        }
        if (src.chance(1, 3)) {
            for (double m = f - 12; m < 12; m += 1) {
                o.m.insert(static_cast<float>(m));
            }
        }
    }
    auto all = o.states();
    std::vector<double> energies;
    for (auto &x : all) {
        energies.push_back(x.getEnergy(sm::cache()));
    }
    SystemOne<S> sys(o.species, sm::cache());
    o.restrict(sys);
    o.settings(sys);
    Limits l;
    std::string what = o.str();
    bool changed = false;
    if (src.flip()) { // before the basis is built
        l = limits(src, all, energies);
        l.n.clear();
        // the limits of l replace the ones before
        Limits given = l;
        given.apply(src, sys);
        if (l.l.empty()) {
            l.l = o.l;
        }
        if (l.j.empty()) {
            l.j = o.j;
        }
        if (l.m.empty()) {
            l.m = o.m;
        }
        what += " " + l.str();
        VP_NOTE(what);
        std::set<StateOne> want;
        for (auto &x : all) {
            if (l.has(x) && l.has(x.getEnergy(sm::cache()))) {
                want.insert(x);
            }
        }
        for (int extra : l.l) { // l may also contain values outside of the first restriction
            if (!o.l.count(extra)) {
                throw vp::Discard();
            }
        }
        std::vector<StateOne> st;
        bool refused = vp::throws([&] { st = listed(sys.getStates()); });
        VP_CHECK(refused == want.empty(), what << (refused ? ": refused" : ": a basis without states is not refused"));
        if (refused) {
            vp::label("nothing left");
            VP_CHECK(vp::throws([&] { st = listed(sys.getStates()); }), what << ": a basis without states is refused only once");
            return true;
        }
        VP_CHECK((std::set<StateOne>(st.begin(), st.end()) == want && st.size() == want.size()), what << ": " << st.size() << " states instead of " << want.size());
        VP_CHECK(sm::maxabs(sm::dense(sys.getBasisvectors()) - Mat::Identity(st.size(), st.size())) == 0, what << ": the basis vectors are not the states");
        Eigen::MatrixXd mag;
        Mat ref = sm::reference(o, st, &mag);
        double d = sm::maxabs(sm::dense(sys.getHamiltonian()) - ref), lim = 4e-7 * (mag.size() ? mag.maxCoeff() : 0) + 1e-12 * sm::maxabs(ref);
        VP_CHECK(d < lim + 1e-12, what << ": the Hamiltonian deviates by " << d);
        changed = want.size() < all.size();
    } else {
        VP_NOTE(what);
    }
    if (!changed || src.flip()) { // afterwards
        if (src.flip()) {
            sys.diagonalize();
            VP_NOTE(" diagonalised");
        }
        double norm = 0.05;
        if (src.chance(1, 3)) {
            norm = src.real(0, 0.9);
            sys.setMinimalNorm(norm);
            VP_NOTE(" minimal norm " << norm);
        }
        for (int k = 0; k < (src.chance(1, 3) ? 2 : 1); ++k) {
            Mat H = sm::dense(sys.getHamiltonian());
            std::vector<double> e;
            for (Eigen::Index i = 0; i < H.rows(); ++i) {
                e.push_back(std::real(H(i, i)));
            }
            Limits x = limits(src, listed(sys.getStates()), e);
            if (!x.any()) {
                continue;
            }
            VP_NOTE(" then " << x.str());
            changed |= later(src, sys, x, norm, what);
            if (vp::throws([&] { sys.buildBasis(); })) {
                break;
            }
        }
    }
    return changed;
}
template <typename S>
bool restricted_two(vp::Src &src) {
    sm::Quiet quiet;
    Two t = sm::gen_two(src, 9, sm::is_complex<S>, src.flip());
    sm::gen_geometry(src, t, sm::is_complex<S>);
    if (src.chance(1, 3)) {
        t.r = {{0, 0, 0}};
        t.green = false;
        t.surface = NEVER;
    }
    std::string what = t.str();
    VP_NOTE(what);
    auto full = t.make<S>();
    Space<StateTwo> sp(listed(full.getStates()));
    Mat K = canonical(full, sp, what);
    auto sys = t.make<S>();
    bool changed = false;
    if (src.flip()) { // energies of the pairs, before the basis is built
        auto a = t.a.make<S>(), b = t.b.make<S>();
        a.diagonalize();
        b.diagonalize();
        Mat ha = sm::dense(a.getHamiltonian()), hb = sm::dense(b.getHamiltonian());
        std::vector<double> e;
        for (Eigen::Index i = 0; i < ha.rows(); ++i) {
            for (Eigen::Index k = 0; k < hb.rows(); ++k) {
                e.push_back(std::real(ha(i, i) + hb(k, k)));
            }
        }
        Limits l;
        bounds(src, e, l);
        l.apply(src, sys);
        VP_NOTE(" " << l.str());
        size_t want = 0;
        for (double x : e) {
            if (l.energy && (std::abs(x - l.lo) < 1e-8 || std::abs(x - l.hi) < 1e-8)) {
                throw vp::Discard();
            }
            want += l.has(x);
        }
        if (want == 0) {
            VP_CHECK(vp::throws([&] { sys.buildBasis(); }), what << " " << l.str() << ": a basis without vectors is not refused");
            return true;
        }
        Mat B = embedded(sys, sp, what);
        VP_CHECK(B.cols() == static_cast<Eigen::Index>(want), what << " " << l.str() << ": " << B.cols() << " basis vectors instead of " << want);
        // every vector is an eigenvector of the non-interacting Hamiltonian within the limits (up to states that hardly contribute)
        Mat H = sm::dense(sys.getHamiltonian());
        if (t.far()) {
            for (Eigen::Index i = 0; i < H.rows(); ++i) {
                VP_CHECK(l.has(std::real(H(i, i))), what << " " << l.str() << ": the pair energy " << H(i, i) << " is outside of the limits");
            }
        }
        Mat d = B.adjoint() * K * B - H;
        bool whole = static_cast<Eigen::Index>(sys.getNumStates()) == sp.size(); // no states were dropped
        if (whole) {
            VP_CHECK(sm::maxabs(d) < 1e-10 * sm::maxabs(K) + 1e-11, what << " " << l.str() << ": the Hamiltonian deviates from the one of the unrestricted system by " << sm::maxabs(d));
        } else {
            vp::label("rare states dropped");
        }
        for (Eigen::Index i = 0; i < B.rows(); ++i) {
            double w = B.row(i).squaredNorm();
            VP_CHECK(w == 0 || w > 0.05 - 1e-9, what << " " << l.str() << ": the state " << sp.st[i].str() << " contributes only " << w);
        }
        changed = want < e.size();
    }
    if (!changed || src.flip()) {
        if (src.flip()) {
            sys.diagonalize();
            VP_NOTE(" diagonalised");
        }
        double norm = 0.05;
        if (src.chance(1, 3)) {
            norm = src.real(0, 0.9);
            sys.buildBasis();
            sys.setMinimalNorm(norm);
            VP_NOTE(" minimal norm " << norm);
        }
        Mat H = sm::dense(sys.getHamiltonian());
        std::vector<double> e;
        for (Eigen::Index i = 0; i < H.rows(); ++i) {
            e.push_back(std::real(H(i, i)));
        }
        std::set<StateOne> ones;
        for (auto &x : listed(sys.getStates())) {
            ones.insert(x.getFirstState());
            ones.insert(x.getSecondState());
        }
        Limits x = limits(src, std::vector<StateOne>(ones.begin(), ones.end()), e);
        if (x.any()) {
            VP_NOTE(" then " << x.str());
            changed |= later(src, sys, x, norm, what);
        }
    }
    return changed;
}
// --- explicit states -----------------------------------------------------------------------------
template <typename S>
bool explicit_one(vp::Src &src) {
    sm::Quiet quiet;
    One o = sm::gen_one(src, 30, sm::is_complex<S>, true);
    int kind = static_cast<int>(src.choice(2)); // 0: no symmetry, 1: rotation, 2: reflection
    if (kind > 0) {
        o.e[0] = o.e[1] = o.b[0] = o.b[1] = 0;
    }
    bool half = halfint(o.species);
    if (kind == 2) {
        o.b[2] = 0;
        o.m.clear();
        if (half && !sm::is_complex<S>) {
            throw vp::Discard();
        }
    }
    auto range = o.states();
    if (range.empty()) {
        throw vp::Discard();
    }
    std::set<StateOne> in(range.begin(), range.end()), extra;
    double s = mx::spin(o.species);
    size_t count = 1 + src.choice(3);
    for (size_t k = 0; k < count; ++k) {
        int n = static_cast<int>(*o.n.begin() + static_cast<int>(src.pick(-1, 4))), l = static_cast<int>(src.pick(0, 4));
        double j = std::abs(l - s) + static_cast<double>(src.choice(static_cast<size_t>(l + s - std::abs(l - s))));
        double m = -j + static_cast<double>(src.choice(static_cast<size_t>(std::lround(2 * j))));
        if (!mx::rydberg(o.species, n, l, j)) {
            continue;
        }
        StateOne x(o.species, n, l, static_cast<float>(j), static_cast<float>(m));
        if (!in.count(x)) {
            extra.insert(x);
            if (kind == 2) {
                extra.insert(StateOne(o.species, n, l, static_cast<float>(j), static_cast<float>(-m)));
            }
        }
    }
    std::set<StateOne> labels;
    size_t nl = src.chance(1, 3) ? 1 + src.choice(1) : 0;
    for (size_t k = 0; k < nl; ++k) {
        labels.insert(StateOne(std::string(k == 0 ? "G" : "ion")));
    }
    auto sys = o.make<S>();
    std::set<float> ms;
    int par = 0;
    if (kind == 1) {
        for (auto &x : range) {
            if (src.flip()) {
                ms.insert(x.getM());
            }
        }
        for (auto &x : extra) {
            if (src.flip()) {
                ms.insert(x.getM());
            }
        }
        if (ms.empty()) {
            ms.insert(range[0].getM());
        }
        sys.setConservedMomentaUnderRotation(ms);
    } else if (kind == 2) {
        par = src.flip() ? 1 : -1;
        sys.setConservedParityUnderReflection(par > 0 ? EVEN : ODD);
    }
    std::string what = o.str();
    for (auto &x : extra) {
        what += " +" + x.str();
    }
    for (auto &x : labels) {
        what += " +" + x.str();
    }
    if (kind == 1) {
        what += " m" + vp::show(ms);
    } else if (kind == 2) {
        what += par > 0 ? " even" : " odd";
    }
    VP_NOTE(what);
    int bad = static_cast<int>(src.chance(1, 4) ? 1 + src.choice(3) : 0);
    if (bad == 1) { // already contained
        StateOne x = range[src.choice(range.size() - 1)];
        if (kind == 1 || (kind == 2 && x.getM() == 0 && (std::lround(x.getL() + x.getJ()) % 2 == 0) != (par > 0))) {
            throw vp::Discard(); // not contained in this sector
        }
        sys.addStates(x);
        if (kind == 2 && x.getM() != 0) {
            sys.addStates(x.getReflected());
        }
        VP_CHECK(vp::throws([&] { sys.buildBasis(); }), what << ": adding the contained state " << x.str() << " is not refused");
        vp::label("contained state refused");
        return true;
    }
    if (bad == 2) {
        std::string sp = o.species == "Cs" ? "Li" : "Cs";
        StateOne x(sp, 30, 1, 1.5f, 0.5f);
        sys.addStates(x);
        sys.addStates(x.getReflected());
        VP_CHECK(vp::throws([&] { sys.buildBasis(); }), what << ": adding a state of another species is not refused");
        vp::label("wrong species refused");
        return true;
    }
    if (bad == 3 && kind == 2) {
        StateOne x(o.species, *o.n.rbegin() + 2, 2, half ? 2.5f : 2.f, half ? 0.5f : 1.f);
        if (s == 0 || s == 0.5 || s == 1) {
            sys.addStates(x);
            VP_CHECK(vp::throws([&] { sys.buildBasis(); }), what << ": adding only one of two reflected states is not refused");
            vp::label("missing partner refused");
            return true;
        }
    }
    if (src.flip()) {
        sys.addStates(extra);
        sys.addStates(labels);
    } else {
        for (auto &x : labels) {
            sys.addStates(x);
        }
        for (auto &x : extra) {
            sys.addStates(x);
        }
    }
    std::set<StateOne> all = in;
    all.insert(extra.begin(), extra.end());
    Space<StateOne> real(std::vector<StateOne>(all.begin(), all.end()));
    Mat P = Mat::Identity(real.size(), real.size());
    if (kind == 1) {
        P = project(real, ms);
    } else if (kind == 2) {
        P = project(mirror(real), half ? cd(0, -par) : cd(par));
    }
    // labels have no symmetry and no energy
    all.insert(labels.begin(), labels.end());
    Space<StateOne> sp(std::vector<StateOne>(all.begin(), all.end()));
    Mat Q = sp.zero();
    for (Eigen::Index i = 0; i < sp.size(); ++i) {
        for (Eigen::Index k = 0; k < sp.size(); ++k) {
            if (sp.st[i].isArtificial() || sp.st[k].isArtificial()) {
                Q(i, k) = i == k;
            } else {
                Q(i, k) = P(real.at.at(sp.st[i]), real.at.at(sp.st[k]));
            }
        }
    }
    Eigen::MatrixXd mag;
    Mat ref = sm::reference(o, sp.st, &mag);
    // compare with the reference up to its accuracy, then with itself
    if (std::lround(std::real(Q.trace())) == 0) {
        VP_CHECK(vp::throws([&] { sys.buildBasis(); }), what << ": a basis without states is not refused");
        return false;
    }
    Mat B = embedded(sys, sp, what);
    Mat H = sm::dense(sys.getHamiltonian());
    double d = sm::maxabs(H - Mat(B.adjoint() * ref * B)), lim = 4e-7 * 2 * (mag.size() ? mag.maxCoeff() : 0) + 1e-12 * sm::maxabs(ref) + 1e-12;
    VP_CHECK(d < lim, what << ": the Hamiltonian deviates by " << d);
    sector(sys, sp, Q, Mat(B * H * B.adjoint()), what);
    VP_CHECK(vp::throws([&] {
                 sys.addStates(StateOne(std::string("late")));
                 sys.buildBasis();
             }),
             what << ": states can be added after the basis was built");
    vp::label(kind == 0 ? "no symmetry" : kind == 1 ? "rotation" : "reflection");
    return !extra.empty() || !labels.empty();
}
template <typename S>
bool explicit_two(vp::Src &src) {
    sm::Quiet quiet;
    int kind = static_cast<int>(src.choice(3)); // 0: none, 1: rotation, 2: permutation, 3: inversion
    Two t = sm::gen_two(src, 6, sm::is_complex<S>, kind >= 2);
    if (kind >= 2) {
        t.b = t.a;
    }
    for (One *o : {&t.a, &t.b}) {
        if (kind == 1) {
            o->e[0] = o->e[1] = o->b[0] = o->b[1] = 0;
        }
        if (kind == 3) {
            o->e = {{0, 0, 0}};
        }
    }
    if (halfint(t.a.species) != halfint(t.b.species) && kind != 0) {
        throw vp::Discard();
    }
    double R = sm::gen_distance(src, sm::largest_n(t)), th = kind == 1 ? 0 : src.sym(3.2);
    t.order = 3;
    t.r = {{R * std::sin(th), 0, R * std::cos(th)}};
    t.green = src.chance(1, 3);
    t.surface = NEVER;
    auto sa = t.a.states(), sb = t.b.states();
    std::set<StateOne> ia(sa.begin(), sa.end()), ib(sb.begin(), sb.end());
    auto other = [&](const std::string &species, const std::vector<StateOne> &list, int n0) {
        if (src.chance(1, 3)) {
            return list[src.choice(list.size() - 1)];
        }
        double s = mx::spin(species);
        int n = n0 + static_cast<int>(src.pick(-1, 3)), l = static_cast<int>(src.pick(0, 3));
        double j = std::abs(l - s) + static_cast<double>(src.choice(static_cast<size_t>(l + s - std::abs(l - s))));
        double m = -j + static_cast<double>(src.choice(static_cast<size_t>(std::lround(2 * j))));
        if (!mx::rydberg(species, n, l, j)) {
            throw vp::Discard();
        }
        return StateOne(species, n, l, static_cast<float>(j), static_cast<float>(m));
    };
    std::set<StateTwo> extra;
    size_t count = 1 + src.choice(2);
    bool artificial = false;
    for (size_t k = 0; k < count; ++k) {
        StateOne a = other(t.a.species, sa, *t.a.n.begin()), b = other(t.b.species, sb, *t.b.n.begin());
        if (kind != 1 && kind != 3 && src.chance(1, 6)) {
            a = StateOne(std::string("G"));
            artificial = true;
        }
        if (ia.count(a) && ib.count(b)) {
            continue;
        }
        extra.insert(StateTwo(a, b));
        if (kind >= 2) {
            extra.insert(StateTwo(b, a));
        }
    }
    if (extra.empty()) {
        throw vp::Discard();
    }
    std::string what = t.str();
    for (auto &x : extra) {
        what += " +" + x.str();
    }
    std::set<int> ms;
    int par = src.flip() ? 1 : -1;
    auto sys = t.make<S>();
    if (kind == 1) {
        for (auto &x : extra) {
            if (src.flip()) {
                ms.insert(static_cast<int>(std::lround(x.getM(0) + x.getM(1))));
            }
        }
        ms.insert(static_cast<int>(std::lround(sa[0].getM() + sb[0].getM())));
        sys.setConservedMomentaUnderRotation(ms);
        what += " M" + vp::show(ms);
    } else if (kind == 2) {
        sys.setConservedParityUnderPermutation(par > 0 ? EVEN : ODD);
        what += par > 0 ? " permutation even" : " permutation odd";
    } else if (kind == 3) {
        sys.setConservedParityUnderInversion(par > 0 ? EVEN : ODD);
        what += par > 0 ? " inversion even" : " inversion odd";
    }
    VP_NOTE(what);
    if (kind >= 2 && src.chance(1, 5)) { // without the partner
        for (auto &x : extra) {
            if (x.getFirstState() != x.getSecondState()) {
                sys.addStates(x);
                VP_CHECK(vp::throws([&] { sys.buildBasis(); }), what << ": adding " << x.str() << " without the exchanged state is not refused");
                vp::label("missing partner refused");
                return true;
            }
        }
    }
    if (src.chance(1, 6) && (kind <= 1 || sb.size() > 1)) {
        const StateOne &y = sb[kind <= 1 ? 0 : 1];
        sys.addStates(StateTwo(sa[0], y));
        if (kind >= 2) {
            sys.addStates(StateTwo(y, sa[0]));
        }
        VP_CHECK(vp::throws([&] { sys.buildBasis(); }), what << ": adding a contained state is not refused");
        vp::label("contained state refused");
        return true;
    }
    for (auto &x : extra) {
        sys.addStates(x);
    }
    // reference: the explicit states have the unperturbed energy and only take part in the interaction
    SystemTwo<S> plain = t.make<S>();
    auto st = listed(plain.getStates());
    Space<StateTwo> inner(st);
    auto bare = SystemTwo<S>(t.a.make<S>(), t.b.make<S>(), sm::cache());
    Mat K0 = canonical(bare, inner, what);
    std::set<StateTwo> all(st.begin(), st.end());
    all.insert(extra.begin(), extra.end());
    Space<StateTwo> sp(std::vector<StateTwo>(all.begin(), all.end()));
    Mat K = sp.zero();
    for (Eigen::Index i = 0; i < sp.size(); ++i) {
        auto x = inner.at.find(sp.st[i]);
        if (x == inner.at.end()) {
            double e = 0;
            for (auto &y : {sp.st[i].getFirstState(), sp.st[i].getSecondState()}) {
                e += y.isArtificial() ? 0 : y.getEnergy(sm::cache());
            }
            K(i, i) = e;
            continue;
        }
        for (Eigen::Index k = 0; k < sp.size(); ++k) {
            auto y = inner.at.find(sp.st[k]);
            if (y != inner.at.end()) {
                K(i, k) = K0(x->second, y->second);
            }
        }
    }
    Eigen::MatrixXd mag;
    Mat V = sm::interaction(t, sp.st, &mag);
    K += V;
    Mat P = Mat::Identity(sp.size(), sp.size());
    if (kind == 1) {
        P = project(sp, ms);
    } else if (kind == 2) {
        P = project(exchange(sp, false), -par);
    } else if (kind == 3) {
        P = project(exchange(sp, true), -par);
    }
    Mat B = embedded(sys, sp, what), H = sm::dense(sys.getHamiltonian());
    double size = std::pow(sm::largest_n(t) + 3, 2) * 5.3e-5, noise = t.green ? 1e-12 * coulombs_constant * elementary_charge * elementary_charge * size * size * (1 + size / R) / std::pow(R, 3) : 1e-15;
    double d = sm::maxabs(H - Mat(B.adjoint() * K * B)), lim = 1e-6 * (mag.size() ? mag.maxCoeff() : 0) * 4 + 1e-10 * sm::maxabs(K) + 1e-11 + 10 * noise;
    VP_CHECK(d < lim, what << ": the Hamiltonian deviates by " << d << ", allowed " << lim);
    sector(sys, sp, P, Mat(B * H * B.adjoint()), what);
    vp::label(kind == 0 ? "no symmetry" : kind == 1 ? "rotation" : kind == 2 ? "permutation" : "inversion");
    if (artificial) {
        vp::label("label");
    }
    return true;
}
// --- chosen products of one-atom basis vectors --------------------------------------------------
template <typename S>
bool chosen(vp::Src &src) {
    sm::Quiet quiet;
    Two t = sm::gen_two(src, 10, sm::is_complex<S>, src.flip());
    sm::gen_geometry(src, t, sm::is_complex<S>);
    auto a = t.a.make<S>(), b = t.b.make<S>();
    a.diagonalize();
    b.diagonalize();
    Mat A = sm::dense(a.getBasisvectors()), B = sm::dense(b.getBasisvectors());
    auto sa = a.getStates(), sb = b.getStates();
    std::vector<std::array<size_t, 2>> pairs;
    std::set<std::array<size_t, 2>> used;
    size_t n = 1 + src.choice(5);
    for (size_t k = 0; k < n; ++k) {
        std::array<size_t, 2> p{{src.choice(a.getNumBasisvectors() - 1), src.choice(b.getNumBasisvectors() - 1)}};
        if (used.insert(p).second) {
            pairs.push_back(p);
        }
    }
    std::ostringstream os;
    for (auto &p : pairs) {
        os << " " << p[0] << "," << p[1];
    }
    std::string what = t.str() + os.str();
    VP_NOTE(what);
    SystemTwo<S> sys(a, b, sm::cache());
    t.geometry(sys);
    int bad = src.chance(1, 5) ? static_cast<int>(1 + src.choice(1)) : 0;
    if (bad == 1) {
        auto q = pairs;
        q.insert(q.begin() + static_cast<long>(src.choice(q.size())), q[src.choice(q.size() - 1)]);
        VP_CHECK(vp::throws([&] { sys.setOneAtomBasisvectors(q); }), what << ": the same pair twice is not refused");
        vp::label("duplicate refused");
        return true;
    }
    if (bad == 2) {
        auto q = pairs;
        if (src.flip()) {
            q.push_back({{a.getNumBasisvectors() + src.choice(2), 0}});
        } else {
            q.push_back({{0, b.getNumBasisvectors() + src.choice(2)}});
        }
        sys.setOneAtomBasisvectors(q);
        VP_CHECK(vp::throws([&] { sys.buildBasis(); }), what << ": a pair out of range is not refused");
        vp::label("out of range refused");
        return true;
    }
    sys.setMinimalNorm(0);
    sys.setOneAtomBasisvectors(pairs);
    SystemTwo<S> full(a, b, sm::cache());
    t.geometry(full);
    Space<StateTwo> sp(listed(full.getStates()));
    Mat K = canonical(full, sp, what);
    Mat X = embedded(sys, sp, what), want = Mat::Zero(sp.size(), static_cast<Eigen::Index>(pairs.size()));
    for (size_t i = 0; i < sa.size(); ++i) {
        for (size_t k = 0; k < sb.size(); ++k) {
            for (size_t c = 0; c < pairs.size(); ++c) {
                want(sp.at.at(StateTwo(sa[i], sb[k])), static_cast<Eigen::Index>(c)) = A(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(pairs[c][0])) * B(static_cast<Eigen::Index>(k), static_cast<Eigen::Index>(pairs[c][1]));
            }
        }
    }
    VP_CHECK(X.cols() == want.cols() && sm::maxabs(X - want) < 1e-12, what << ": the basis vectors are not the products of the chosen one-atom vectors");
    double d = sm::maxabs(sm::dense(sys.getHamiltonian()) - Mat(want.adjoint() * K * want));
    VP_CHECK(d < 1e-10 * sm::maxabs(K) + 1e-11, what << ": the Hamiltonian deviates from the one of the unrestricted system by " << d);
    return true;
}
// --- refusals ------------------------------------------------------------------------------------
template <typename S>
void refusals(vp::Src &src) {
    sm::Quiet quiet;
    One o = sm::gen_one(src, 12, sm::is_complex<S>, false);
    auto one = [&] {
        SystemOne<S> s(o.species, sm::cache());
        return s;
    };
    auto two = [&] { return SystemTwo<S>(o.make<S>(), o.make<S>(), sm::cache()); };
    switch (src.choice(5)) {
    case 0: {
        auto s = one();
        if (src.flip()) {
            s.restrictL(0, 2);
        }
        if (src.flip()) {
            s.restrictEnergy(-1000, src.flip() ? NEVER : -100);
        }
        VP_NOTE(o.species << " without limits of n");
        VP_CHECK(vp::throws([&] { s.buildBasis(); }), "an unlimited basis is not refused");
        vp::label("unlimited basis");
        break;
    }
    case 1: {
        auto s = o.make<S>();
        auto t = two();
        float m = s.getStates()[0].getM();
        VP_NOTE(o.str() << " ARB and " << m);
        auto a = one();
        VP_CHECK(vp::throws([&] { a.setConservedMomentaUnderRotation({ANY, m}); }), "ARB together with a momentum is not refused");
        VP_CHECK(vp::throws([&] { t.setConservedMomentaUnderRotation({ARB, 1}); }), "ARB together with a momentum is not refused");
        t.getHamiltonian();
        vp::label("ARB with momenta");
        break;
    }
    case 2: { // after the basis was built
        auto s = o.make<S>();
        size_t n = s.getNumStates();
        int k = static_cast<int>(src.choice(1));
        VP_NOTE(o.str() << " symmetry after building " << k);
        VP_CHECK(vp::throws([&] {
                     if (k == 0) {
                         s.setConservedParityUnderReflection(EVEN);
                     } else {
                         s.setConservedMomentaUnderRotation({s.getStates()[0].getM()});
                     }
                 }),
                 o.str() << ": the symmetry can be changed after the basis was built");
        VP_CHECK(s.getNumStates() == n, "the basis changed");
        vp::label("one atom, after building");
        break;
    }
    case 3: {
        auto t = two();
        size_t n = t.getNumStates();
        int k = static_cast<int>(src.choice(4));
        VP_NOTE(o.str() << " pair symmetry after building " << k);
        VP_CHECK(vp::throws([&] {
                     switch (k) {
                     case 0:
                         t.setConservedParityUnderPermutation(ODD);
                         break;
                     case 1:
                         t.setConservedParityUnderInversion(ODD);
                         break;
                     case 2:
                         t.setConservedParityUnderReflection(ODD);
                         break;
                     case 3:
                         t.setConservedMomentaUnderRotation({0});
                         break;
                     default:
                         t.setOneAtomBasisvectors({{{0, 0}}});
                     }
                 }),
                 o.str() << ": the symmetry can be changed after the basis was built");
        VP_CHECK(t.getNumStates() == n, "the basis changed");
        vp::label("two atoms, after building");
        break;
    }
    case 4: { // different one-atom systems
        One p = o;
        if (src.flip()) {
            p.species = o.species == "Rb" ? "Cs" : "Rb";
        } else {
            p.n.insert(*p.n.rbegin() + 1);
        }
        if (p.states().empty()) {
            throw vp::Discard();
        }
        sm::require_rydberg(p);
        if (p.states().size() > 40) {
            throw vp::Discard();
        }
        bool inv = src.flip();
        VP_NOTE(o.str() << " | " << p.str() << (inv ? " inversion" : " permutation"));
        SystemTwo<S> t(o.make<S>(), p.make<S>(), sm::cache());
        if (inv) {
            t.setConservedParityUnderInversion(ODD);
        } else {
            t.setConservedParityUnderPermutation(ODD);
        }
        VP_CHECK(vp::throws([&] { t.buildBasis(); }), "permutation or inversion symmetry of different one-atom systems is not refused");
        vp::label("different one-atom systems");
        break;
    }
    default: { // reflection needs both signs of the momenta
        auto t = two();
        bool first = src.flip();
        int m = static_cast<int>(src.pick(1, 4));
        VP_NOTE(o.str() << " reflection and M = " << m);
        VP_CHECK(vp::throws([&] {
                     if (first) {
                         t.setConservedParityUnderReflection(EVEN);
                         t.setConservedMomentaUnderRotation({m});
                     } else {
                         t.setConservedMomentaUnderRotation({m});
                         t.setConservedParityUnderReflection(EVEN);
                     }
                 }),
                 "reflection with one sign of the momentum is not refused");
        vp::label("reflection with one sign of the momentum");
    }
    }
}
} // namespace

VP_FACET("one atom", 800, 12000, "at least two sectors with states, or a refusal") {
    if (src.flip() ? one_atom<cd>(src) : one_atom<double>(src)) {
        vp::nontrivial();
    }
}
VP_FACET("pairs", 2000, 30000, "at least two sectors with states and a coupling of at least 1 kHz") {
    if (src.flip() ? pair<cd>(src) : pair<double>(src)) {
        vp::nontrivial();
    }
}
VP_FACET("pairs of sectors", 300, 4000, "a coupling of at least 1 kHz") {
    if (src.flip() ? from_one_atom_sectors<cd>(src) : from_one_atom_sectors<double>(src)) {
        vp::nontrivial();
    }
}
VP_FACET("restrictions of one atom", 800, 10000, "something is removed") {
    if (src.flip() ? restricted_one<cd>(src) : restricted_one<double>(src)) {
        vp::nontrivial();
    }
}
VP_FACET("restrictions of two atoms", 600, 8000, "something is removed") {
    if (src.flip() ? restricted_two<cd>(src) : restricted_two<double>(src)) {
        vp::nontrivial();
    }
}
VP_FACET("explicit states of one atom", 600, 8000, "explicit states are in the basis, or refused") {
    if (src.flip() ? explicit_one<cd>(src) : explicit_one<double>(src)) {
        vp::nontrivial();
    }
}
VP_FACET("explicit states of two atoms", 800, 10000, "explicit states are in the basis, or refused") {
    if (src.flip() ? explicit_two<cd>(src) : explicit_two<double>(src)) {
        vp::nontrivial();
    }
}
VP_FACET("refused", 300, 3000, "every case") {
    if (src.flip()) {
        refusals<cd>(src);
    } else {
        refusals<double>(src);
    }
    vp::nontrivial();
}
VP_FACET("chosen products", 400, 5000, "every case") {
    if (src.flip() ? chosen<cd>(src) : chosen<double>(src)) {
        vp::nontrivial();
    }
}
VP_PROBE("KF-C18-1", "reflection symmetric pair states of one-atom states that are not reflection symmetric") {
    sm::Quiet quiet;
    One o;
    o.n = {30};
    o.l = {0};
    auto a = o.make<cd>();
    Eigen::Index count = 0;
    double worst = 0;
    for (parity_t p : {EVEN, ODD}) {
        SystemTwo<cd> sys(a, a, sm::cache());
        sys.setConservedParityUnderReflection(p);
        Mat B = sm::dense(sys.getBasisvectors());
        count += B.cols();
        worst = std::max(worst, sm::maxabs(B.adjoint() * B - Mat::Identity(B.cols(), B.cols())));
    }
    VP_CHECK(count == 4 && worst < 1e-9, count << " basis vectors in total instead of 4, deviation from orthonormality " << worst);
}
