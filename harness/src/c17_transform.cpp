// C17: transformations of systems change the basis as documented and nothing else; queries agree with
// the matrices that the system reports.
#include "sysmodel.hpp"
#include <unordered_set>

namespace {
using sm::cd;
using sm::Mat;
using sm::One;
using sm::Two;
using sm::Vec3;
constexpr double NEVER = std::numeric_limits<double>::max();
const double PI = std::acos(-1.);

// --- what the generic code needs to know about one- and two-atom systems -----------------------
template <typename S>
struct OneKind {
    using System = SystemOne<S>;
    using Spec = One;
    using State = StateOne;
    static System bare(const One &o) {
        System s(o.species, sm::cache());
        o.restrict(s);
        return s;
    }
    static void change(vp::Src &src, One &o) {
        bool complex = sm::is_complex<S>;
        int n = *o.n.rbegin();
        double en = std::min(1e9 / std::pow(n, 4.) * 5e-3 / n * 40, 200.);
        if (src.chance(2, 3)) {
            o.e = sm::field3(src, en, complex);
        }
        if (src.chance(2, 3)) {
            o.b = sm::field3(src, 2000, complex);
        }
        if (src.chance(1, 3)) {
            o.diamagnetism = !o.diamagnetism;
        }
        if (src.chance(1, 4)) {
            o.charge = static_cast<int>(src.pick(-2, 2));
            o.order = static_cast<unsigned>(src.pick(0, 3));
            o.distance = src.logreal(2e-4 * n * n, 20);
        }
    }
    static void set(System &s, const One &o) { o.settings(s); }
    static Spec gen(vp::Src &src) {
        One o = sm::gen_one(src, 24, sm::is_complex<S>, false);
        return o;
    }
};
template <typename S>
struct TwoKind {
    using System = SystemTwo<S>;
    using Spec = Two;
    using State = StateTwo;
    static System bare(const Two &t) { return System(t.a.make<S>(), t.b.make<S>(), sm::cache()); }
    static void change(vp::Src &src, Two &t) {
        t.green = false;
        t.surface = NEVER;
        sm::gen_geometry(src, t, sm::is_complex<S>);
    }
    static void set(System &s, const Two &t) {
        s.setSurfaceDistance(NEVER);
        s.setOrder(3);
        s.enableGreenTensor(t.green);
        s.setOrder(t.order);
        s.setDistanceVector(t.r);
        s.setSurfaceDistance(t.surface);
    }
    static Spec gen(vp::Src &src) {
        Two t = sm::gen_two(src, 6, sm::is_complex<S>, src.flip());
        for (One *o : {&t.a, &t.b}) {
            o->j.clear();
            o->m.clear();
            while (o->states().size() > 8) {
                if (o->l.size() > 1) {
                    o->l.erase(std::prev(o->l.end()));
                } else if (o->n.size() > 1) {
                    o->n.erase(std::prev(o->n.end()));
                } else {
                    throw vp::Discard();
                }
            }
            sm::require_rydberg(*o);
        }
        t.green = false;
        t.surface = NEVER;
        sm::gen_geometry(src, t, sm::is_complex<S>);
        return t;
    }
};
// active rotation exp(-i a J_z) exp(-i b J_y) exp(-i c J_z) for m = -j, ..., j
Mat spin_rotation(double j, double a, double b, double c) {
    auto n = static_cast<Eigen::Index>(std::lround(2 * j + 1));
    Mat jy = Mat::Zero(n, n);
    for (Eigen::Index i = 0; i + 1 < n; ++i) {
        double m = -j + static_cast<double>(i);
        double up = std::sqrt(j * (j + 1) - m * (m + 1));
        jy(i + 1, i) = cd(0, -0.5) * up;
        jy(i, i + 1) = cd(0, 0.5) * up;
    }
    Eigen::SelfAdjointEigenSolver<Mat> es(jy);
    Eigen::VectorXcd ph(n);
    for (Eigen::Index i = 0; i < n; ++i) {
        ph(i) = std::polar(1., -b * es.eigenvalues()(i));
    }
    Mat d = es.eigenvectors() * ph.asDiagonal() * es.eigenvectors().adjoint();
    for (Eigen::Index i = 0; i < n; ++i) {
        for (Eigen::Index k = 0; k < n; ++k) {
            d(i, k) *= std::polar(1., -a * (-j + static_cast<double>(i)) - c * (-j + static_cast<double>(k)));
        }
    }
    return d;
}
cd turned(const StateOne &to, const StateOne &from, double a, double b, double c) {
    if (to.getSpecies() != from.getSpecies() || to.getN() != from.getN() || to.getL() != from.getL() || to.getJ() != from.getJ()) {
        return 0;
    }
    double j = to.getJ();
    static std::map<std::array<double, 4>, Mat> memo;
    auto it = memo.find({j, a, b, c});
    if (it == memo.end()) {
        if (memo.size() > 200) {
            memo.clear();
        }
        it = memo.emplace(std::array<double, 4>{j, a, b, c}, spin_rotation(j, a, b, c)).first;
    }
    return it->second(std::lround(to.getM() + j), std::lround(from.getM() + j));
}
cd turned(const StateTwo &to, const StateTwo &from, double a, double b, double c) {
    return turned(to.getFirstState(), from.getFirstState(), a, b, c) * turned(to.getSecondState(), from.getSecondState(), a, b, c);
}
template <typename State>
Mat rotator(const std::vector<State> &st, double a, double b, double c) {
    auto n = static_cast<Eigen::Index>(st.size());
    Mat r(n, n);
    for (Eigen::Index i = 0; i < n; ++i) {
        for (Eigen::Index k = 0; k < n; ++k) {
            r(i, k) = turned(st[i], st[k], a, b, c);
        }
    }
    return r;
}
template <typename State>
struct Snap {
    std::vector<State> st;
    Mat B, H;
    template <typename System>
    explicit Snap(System &s) : st(s.getStates()) {
        H = sm::dense(s.getHamiltonian());
        B = sm::dense(s.getBasisvectors());
        VP_CHECK(B.rows() == static_cast<Eigen::Index>(st.size()) && B.cols() == H.rows() && H.rows() == H.cols(), "inconsistent sizes: " << st.size() << " states, basis " << B.rows() << "x" << B.cols() << ", Hamiltonian " << H.rows() << "x" << H.cols());
        VP_CHECK(s.getNumStates() == st.size() && s.getNumBasisvectors() == static_cast<size_t>(B.cols()), "wrong number of states or basis vectors");
    }
    Mat canonical() const { return B * H * B.adjoint(); }
    Mat gram() const { return B * B.adjoint(); }
    double limit() const { return 1e-12 * (1 + sm::maxabs(H)) * static_cast<double>(B.rows()) + 1e-10; }
};
template <typename State>
bool unchanged(const Snap<State> &a, const Snap<State> &b) {
    return a.st == b.st && a.B.rows() == b.B.rows() && a.B.cols() == b.B.cols() && sm::maxabs(a.B - b.B) == 0 && sm::maxabs(a.H - b.H) == 0;
}
// canonical Hamiltonian of a freshly built system, in the order of the given states
template <typename Kind>
Mat fresh(const typename Kind::Spec &spec, const std::vector<typename Kind::State> &order, bool with) {
    auto s = Kind::bare(spec);
    if (with) {
        Kind::set(s, spec);
    }
    Snap<typename Kind::State> a(s);
    std::map<typename Kind::State, Eigen::Index> at;
    for (size_t i = 0; i < a.st.size(); ++i) {
        at[a.st[i]] = static_cast<Eigen::Index>(i);
    }
    Mat X = a.canonical(), Y(order.size(), order.size());
    for (size_t i = 0; i < order.size(); ++i) {
        for (size_t k = 0; k < order.size(); ++k) {
            Y(i, k) = X(at.at(order[i]), at.at(order[k]));
        }
    }
    return Y;
}
std::vector<size_t> choose(vp::Src &src, size_t n) {
    std::vector<size_t> all, some;
    for (size_t i = 0; i < n; ++i) {
        all.push_back(i);
    }
    for (size_t i = n; i > 1; --i) {
        if (src.flip()) {
            std::swap(all[i - 1], all[src.choice(i - 1)]);
        }
    }
    size_t k = 1 + src.choice(n - 1);
    some.assign(all.begin(), all.begin() + static_cast<long>(k));
    return some;
}
template <typename S>
void gen_angles(vp::Src &src, double &a, double &b, double &c) {
    b = src.chance(1, 4) ? PI / 2 * static_cast<double>(src.pick(-2, 2)) : src.sym(6);
    a = sm::is_complex<S> ? src.sym(6) : src.chance(1, 4) ? 2 * PI : 0;
    c = sm::is_complex<S> && src.flip() ? src.sym(6) : 0;
}

// a sequence of operations, each compared with its documented effect
template <typename Kind, typename S>
bool steps(vp::Src &src, int length) {
    using State = typename Kind::State;
    sm::Quiet quiet;
    auto spec = Kind::gen(src);
    auto sys = Kind::bare(spec);
    std::ostringstream log;
    size_t noted = 0;
    auto note = [&] {
        VP_NOTE(log.str().substr(noted));
        noted = log.str().size();
    };
    log << spec.str() << (sm::is_complex<S> ? " complex:" : " real:");
    bool set = src.chance(5, 6);
    if (set) {
        Kind::set(sys, spec);
    }
    bool frozen = false, edited = false, rotated = false, interesting = false;
    Mat turn;    // total rotation so far
    std::vector<State> order = sys.getStates();
    turn = Mat::Identity(static_cast<Eigen::Index>(order.size()), static_cast<Eigen::Index>(order.size()));
    Snap<State> a(sys);
    for (int k = 0; k < length; ++k) {
        int op = static_cast<int>(src.choice(10));
        if (frozen && (op == 5 || op == 6)) {
            op = 0;
        }
        double lim = a.limit();
        switch (op) {
        case 0:
        case 1: {
            log << " diagonalize";
            note();
            sys.diagonalize();
            Snap<State> b(sys);
            Mat off = b.H;
            off.diagonal().setZero();
            VP_CHECK(sm::maxabs(off) <= 1e-12, log.str() << ": the Hamiltonian is not diagonal, largest entry " << sm::maxabs(off));
            std::vector<double> e;
            for (Eigen::Index i = 0; i < b.H.rows(); ++i) {
                e.push_back(b.H(i, i).real());
                VP_CHECK(b.H(i, i).imag() == 0 || std::abs(b.H(i, i).imag()) < 1e-12, log.str() << ": complex eigenvalue " << b.H(i, i));
            }
            double d = sm::distance(e, sm::spectrum(a.H));
            VP_CHECK(d <= lim, log.str() << ": the eigenvalues differ by " << d);
            VP_CHECK(b.st == a.st, log.str() << ": the list of states changed");
            VP_CHECK(b.B.cols() == a.B.cols() && sm::maxabs(b.gram() - a.gram()) < 1e-9, log.str() << ": the basis vectors span another space");
            VP_CHECK(sm::maxabs(b.canonical() - a.canonical()) <= lim, log.str() << ": basis vectors and eigenvalues do not belong together, deviation " << sm::maxabs(b.canonical() - a.canonical()));
            interesting |= sm::maxabs(b.B - a.B) > 0.1;
            a = b;
            break;
        }
        case 2: {
            log << " canonicalize";
            note();
            sys.canonicalize();
            Snap<State> b(sys);
            VP_CHECK(b.st == a.st && b.B.cols() == a.B.rows(), log.str() << ": there must be one vector for each state");
            VP_CHECK(sm::maxabs(b.B - a.gram()) < 1e-9, log.str() << ": the basis vectors are not the projections of the states, deviation " << sm::maxabs(b.B - a.gram()));
            VP_CHECK(sm::maxabs(b.H - a.canonical()) <= lim, log.str() << ": the Hamiltonian is not the one in the basis of the states, deviation " << sm::maxabs(b.H - a.canonical()));
            a = b;
            break;
        }
        case 3: {
            if (a.B.cols() < 2) {
                break;
            }
            auto idx = choose(src, static_cast<size_t>(a.B.cols()));
            log << " constrain" << vp::show(idx);
            note();
            sys.constrainBasisvectors(idx);
            Snap<State> b(sys);
            VP_CHECK(b.st == a.st && b.B.cols() == static_cast<Eigen::Index>(idx.size()), log.str() << ": wrong number of states or vectors");
            for (size_t i = 0; i < idx.size(); ++i) {
                VP_CHECK(sm::maxabs(b.B.col(static_cast<Eigen::Index>(i)) - a.B.col(static_cast<Eigen::Index>(idx[i]))) < 1e-14, log.str() << ": vector " << i << " is not the previous vector " << idx[i]);
                for (size_t j = 0; j < idx.size(); ++j) {
                    cd x = b.H(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)), y = a.H(static_cast<Eigen::Index>(idx[i]), static_cast<Eigen::Index>(idx[j]));
                    VP_CHECK(std::abs(x - y) <= 1e-13 * (1 + std::abs(y)), log.str() << ": entry " << i << "," << j << " is " << x << ", it was " << y);
                }
            }
            interesting = true;
            a = b;
            break;
        }
        case 4: {
            bool twice = src.flip() && a.B.cols() > 0;
            std::vector<size_t> idx = twice ? std::vector<size_t>{0, 0} : std::vector<size_t>{0, static_cast<size_t>(a.B.cols()) + src.choice(3)};
            log << " constrain" << vp::show(idx);
            note();
            VP_CHECK(vp::throws([&] { sys.constrainBasisvectors(idx); }), log.str() << ": repeated or non-existing vectors were accepted");
            Snap<State> b(sys);
            VP_CHECK(unchanged(a, b), log.str() << ": a refused selection changed the system");
            break;
        }
        case 5: { // other settings
            if (edited) {
                break;
            }
            Kind::change(src, spec);
            log << " set " << spec.str();
            note();
            Kind::set(sys, spec);
            if (src.flip()) {
                log << " buildInteraction";
                sys.buildInteraction();
            }
            Mat free = fresh<Kind>(spec, order, false), full = fresh<Kind>(spec, order, true);
            Mat want = turn * free * turn.adjoint() + (full - free);
            Snap<State> b(sys);
            double l = 1e-12 * (1 + sm::maxabs(want)) * static_cast<double>(order.size()) * 10 + 1e-10 * sm::maxabs(full - free) + 1e-10;
            VP_CHECK(sm::maxabs(b.gram() - a.gram()) < 1e-9 || sm::maxabs(b.gram() * a.gram() - b.gram()) < 1e-9, log.str() << ": the basis vectors span another space");
            Mat P = b.gram();
            double dev = sm::maxabs(b.canonical() - P * want * P);
            VP_CHECK(dev <= l, log.str() << ": the Hamiltonian deviates by " << dev << " from the one with these settings in the space of the basis vectors");
            interesting |= sm::maxabs(full - free) > 1e-6;
            set = true;
            vp::label(k > 0 ? "settings changed after transformations" : "settings changed");
            a = b;
            break;
        }
        case 6: {
            double x, y, z;
            gen_angles<S>(src, x, y, z);
            log << " rotate(" << x << "," << y << "," << z << ")";
            note();
            Mat R = rotator(a.st, -z, -y, -x);
            if (sm::is_complex<S> && src.chance(1, 3)) { // the same with axes
                Eigen::Matrix3d r = sm::rotation(x, y, z);
                sys.rotate({{r(0, 2), r(1, 2), r(2, 2)}}, {{r(0, 1), r(1, 1), r(2, 1)}});
                log << " by axes";
            } else {
                sys.rotate(x, y, z);
            }
            Snap<State> b(sys);
            // the full turns of half-integer momenta are of no significance
            Mat want = R * a.B;
            bool same = sm::maxabs(b.B - want) < 1e-9 || sm::maxabs(b.B + want) < 1e-9;
            VP_CHECK(b.st == a.st && same, log.str() << ": the basis vectors are not the rotated ones, deviation " << sm::maxabs(b.B - want));
            VP_CHECK(sm::maxabs(b.H - a.H) == 0, log.str() << ": the Hamiltonian changed together with its basis");
            turn = R * turn;
            rotated = true;
            interesting = true;
            vp::label("rotated");
            a = b;
            break;
        }
        case 7: {
            if (frozen || src.chance(1, 2)) {
                break;
            }
            log << " unitarize";
            note();
            try {
                sys.unitarize();
            } catch (std::exception &e) {
                // vectors that cannot be told apart cannot become states of their own
                Mat g = a.B.adjoint() * a.B;
                VP_CHECK(sm::maxabs(g - Mat::Identity(g.rows(), g.cols())) > 1e-6, log.str() << ": failed for an orthonormal basis: " << e.what());
                Snap<State> b(sys);
                VP_CHECK(unchanged(a, b), log.str() << ": a refused operation changed the system");
                break;
            }
            Snap<State> b(sys);
            VP_CHECK(sm::maxabs(b.H - a.H) == 0, log.str() << ": the Hamiltonian changed");
            VP_CHECK(b.B.rows() == b.B.cols() && b.B.cols() == a.B.cols() && sm::maxabs(b.B - Mat::Identity(b.B.rows(), b.B.cols())) == 0, log.str() << ": the basis vectors are not the new states");
            VP_CHECK(std::set<State>(b.st.begin(), b.st.end()).size() == b.st.size(), log.str() << ": the new states are not distinct");
            for (auto &s : b.st) {
                VP_CHECK(utils::is_true(s.isArtificial()), log.str() << ": the new state " << s.str() << " is not artificial");
            }
            VP_CHECK(vp::throws([&] { Kind::set(sys, spec); }), log.str() << ": settings can be changed although the states have lost their meaning");
            Snap<State> c(sys);
            VP_CHECK(unchanged(b, c), log.str() << ": refused settings changed the system");
            frozen = true;
            vp::label("unitarized");
            a = b;
            break;
        }
        case 8: { // only from a complete basis
            if (sm::maxabs(a.gram() - Mat::Identity(a.B.rows(), a.B.rows())) > 1e-9 || a.B.cols() != a.B.rows()) {
                break;
            }
            log << " forgetStatemixing";
            note();
            sys.diagonalize();
            Snap<State> d(sys);
            if (vp::throws([&] { sys.forgetStatemixing(); })) {
                Snap<State> b(sys);
                VP_CHECK(unchanged(d, b), log.str() << ": a refused operation changed the system");
                a = d;
                break;
            }
            Snap<State> b(sys);
            VP_CHECK(b.st == d.st && sm::maxabs(b.H - d.H) == 0, log.str() << ": the energies changed");
            for (Eigen::Index i = 0; i < b.B.cols(); ++i) {
                Eigen::Index at;
                d.B.col(i).cwiseAbs().maxCoeff(&at);
                VP_CHECK(b.B(at, i) == cd(1) && b.B.col(i).cwiseAbs().sum() == 1, log.str() << ": vector " << i << " is not the main state");
            }
            edited |= !set; // the Hamiltonian that other settings start from is another one
            vp::label("mixing forgotten");
            a = b;
            break;
        }
        default: {
            if (a.st.size() < 2) {
                break;
            }
            size_t r = src.choice(a.st.size() - 1), c = src.choice(a.st.size() - 1);
            S v = S(src.sym(50));
            if constexpr (sm::is_complex<S>) {
                if (r != c) {
                    v = cd(src.sym(50), src.sym(50));
                }
            }
            int what = static_cast<int>(src.choice(2));
            log << (what == 0 ? " add" : what == 1 ? " set" : " get") << " entry " << r << "," << c << " " << cd(v);
            note();
            Eigen::Index ir = static_cast<Eigen::Index>(r), ic = static_cast<Eigen::Index>(c);
            cd now = a.canonical()(ir, ic);
            cd got = cd(sys.getHamiltonianEntry(a.st[r], a.st[c]));
            VP_CHECK(std::abs(got - now) <= lim, log.str() << ": the entry is reported as " << got << " instead of " << now);
            if (what == 2) {
                break;
            }
            what == 0 ? sys.addHamiltonianEntry(a.st[r], a.st[c], v) : sys.setHamiltonianEntry(a.st[r], a.st[c], v);
            Mat E = Mat::Zero(a.B.rows(), a.B.rows());
            cd delta = what == 0 ? cd(v) : cd(v) - now;
            E(ir, ic) += delta;
            if (r != c) {
                E(ic, ir) += std::conj(delta);
            }
            Snap<State> b(sys);
            Mat want = a.H + a.B.adjoint() * E * a.B;
            VP_CHECK(b.st == a.st && sm::maxabs(b.B - a.B) == 0, log.str() << ": the basis changed");
            VP_CHECK(sm::maxabs(b.H - want) <= lim, log.str() << ": the Hamiltonian deviates by " << sm::maxabs(b.H - want) << " from the previous one plus the change");
            bool complete = sm::maxabs(a.gram() - Mat::Identity(a.B.rows(), a.B.rows())) < 1e-9;
            if (complete && what == 1) {
                got = cd(sys.getHamiltonianEntry(a.st[r], a.st[c]));
                VP_CHECK(std::abs(got - cd(v)) <= lim * 10, log.str() << ": the entry is " << got << " after setting it");
            }
            vp::label("entry");
            interesting = true;
            edited = true;
            a = b;
            break;
        }
        }
    }
    (void)rotated;
    return interesting;
}
} // namespace

VP_FACET("one atom", 2500, 12000, "some operation changed the basis or the Hamiltonian noticeably") {
    int len = static_cast<int>(src.pick(2, 7));
    vp::nontrivial(src.flip() ? steps<OneKind<cd>, cd>(src, len) : steps<OneKind<double>, double>(src, len));
}
VP_FACET("two atoms", 1500, 6000, "some operation changed the basis or the Hamiltonian noticeably") {
    int len = static_cast<int>(src.pick(2, 6));
    vp::nontrivial(src.flip() ? steps<TwoKind<cd>, cd>(src, len) : steps<TwoKind<double>, double>(src, len));
}

// --- queries -----------------------------------------------------------------------------------
namespace {
// a system in some state of its life
template <typename Kind, typename S>
typename Kind::System prepared(vp::Src &src, const typename Kind::Spec &spec, std::string &log) {
    using State = typename Kind::State;
    auto s = Kind::bare(spec);
    if (src.chance(5, 6)) {
        Kind::set(s, spec);
    }
    int n = static_cast<int>(src.pick(0, 3));
    for (int i = 0; i < n; ++i) {
        switch (src.choice(4)) {
        case 0:
        case 1:
            s.diagonalize();
            log += " diagonalize";
            break;
        case 2: {
            double x, y, z;
            gen_angles<S>(src, x, y, z);
            s.rotate(x, y, z);
            log += " rotate" + vp::show(Vec3{{x, y, z}});
            break;
        }
        case 3: {
            size_t cols = s.getNumBasisvectors();
            if (cols > 2) {
                auto idx = choose(src, cols);
                s.constrainBasisvectors(idx);
                log += " constrain" + vp::show(idx);
            }
            break;
        }
        default:
            s.canonicalize();
            log += " canonicalize";
        }
    }
    (void)sizeof(State);
    return s;
}
StateOne blur(vp::Src &src, const StateOne &s) { // some quantum numbers left open
    int n = src.flip() ? s.getN() : ARB, l = src.flip() ? s.getL() : ARB;
    float j = src.flip() ? s.getJ() : static_cast<float>(ARB), m = src.flip() ? s.getM() : static_cast<float>(ARB);
    return StateOne(s.getSpecies(), n, l, j, m);
}
StateTwo blur(vp::Src &src, const StateTwo &s) {
    return StateTwo(src.flip() ? blur(src, s.getFirstState()) : s.getFirstState(), blur(src, s.getSecondState()));
}
bool within(const StateOne &s, const StateOne &g) {
    return s.getSpecies() == g.getSpecies() && (g.getN() == ARB || g.getN() == s.getN()) && (g.getL() == ARB || g.getL() == s.getL()) && (g.getJ() == static_cast<float>(ARB) || g.getJ() == s.getJ()) && (g.getM() == static_cast<float>(ARB) || g.getM() == s.getM());
}
bool within(const StateTwo &s, const StateTwo &g) { return within(s.getFirstState(), g.getFirstState()) && within(s.getSecondState(), g.getSecondState()); }
bool open(const StateOne &g) { return g.getN() == ARB || g.getL() == ARB || g.getJ() == static_cast<float>(ARB) || g.getM() == static_cast<float>(ARB); }
bool open(const StateTwo &g) { return open(g.getFirstState()) || open(g.getSecondState()); }
StateOne absent(vp::Src &src, const StateOne &s) { return StateOne(s.getSpecies(), s.getN() + 5 + static_cast<int>(src.choice(2)), s.getL(), s.getJ(), s.getM()); }
StateTwo absent(vp::Src &src, const StateTwo &s) { return StateTwo(s.getFirstState(), absent(src, s.getSecondState())); }

template <typename Kind, typename S>
void queries(vp::Src &src) {
    using State = typename Kind::State;
    sm::Quiet quiet;
    auto spec = Kind::gen(src);
    std::string log = spec.str() + (sm::is_complex<S> ? " complex:" : " real:");
    auto sys = prepared<Kind, S>(src, spec, log);
    VP_NOTE(log);
    Snap<State> a(sys);
    auto N = a.st.size();
    auto cols = static_cast<size_t>(a.B.cols());
    vp::nontrivial(sm::maxabs(a.B.cwiseAbs() - a.B.cwiseAbs2()) > 0.05);

    // overlaps
    for (int rep = 0; rep < 3; ++rep) {
        std::set<size_t> rows;
        std::vector<State> asked;
        Eigen::VectorXd want = Eigen::VectorXd::Zero(a.B.cols());
        Mat R = Mat::Identity(a.B.rows(), a.B.rows());
        double x = 0, y = 0, z = 0;
        bool turned = src.flip();
        if (turned) {
            gen_angles<S>(src, x, y, z);
            R = rotator(a.st, -z, -y, -x);
        }
        Mat O = a.B.adjoint() * R;
        auto count = [&](size_t i) {
            for (Eigen::Index k = 0; k < want.size(); ++k) {
                want(k) += std::norm(O(k, static_cast<Eigen::Index>(i)));
            }
        };
        Eigen::VectorXd got;
        std::ostringstream os;
        bool byaxes = turned && sm::is_complex<S> && src.chance(1, 3);
        Eigen::Matrix3d r = sm::rotation(x, y, z);
        Vec3 tz{{r(0, 2), r(1, 2), r(2, 2)}}, ty{{r(0, 1), r(1, 1), r(2, 1)}};
        auto ask = [&](const auto &q) -> Eigen::VectorXd {
            if (byaxes) {
                return sys.getOverlap(q, tz, ty);
            }
            if (turned) {
                return sys.getOverlap(q, x, y, z);
            }
            return sys.getOverlap(q);
        };
        if (src.flip()) { // by index
            auto idx = choose(src, std::min<size_t>(N, 4));
            for (size_t i : idx) {
                count(i);
            }
            os << "indices " << vp::show(idx);
            got = idx.size() == 1 && src.flip() ? ask(idx[0]) : ask(idx);
        } else {
            size_t n = 1 + src.choice(2);
            for (size_t k = 0; k < n; ++k) {
                State s = a.st[src.choice(N - 1)];
                State g = src.flip() ? blur(src, s) : src.chance(1, 8) ? absent(src, s) : s;
                std::vector<size_t> hit;
                bool again = false;
                for (size_t i = 0; i < N; ++i) {
                    if (within(a.st[i], g)) {
                        hit.push_back(i);
                        again |= rows.count(i) != 0;
                    }
                }
                if (again) { // asked for twice: no documented meaning
                    continue;
                }
                asked.push_back(g);
                os << " " << g.str();
                for (size_t i : hit) {
                    rows.insert(i);
                    count(i);
                }
                if (open(g) && hit.size() > 1) {
                    vp::label("generalized state");
                }
            }
            got = asked.size() == 1 && src.flip() ? ask(asked[0]) : ask(asked);
        }
        if (turned) {
            os << " turned by " << x << "," << y << "," << z << (byaxes ? " (axes)" : "");
            vp::label("rotated overlap");
        }
        VP_CHECK(got.size() == want.size(), log << ": overlap with" << os.str() << " has " << got.size() << " entries");
        double dev = want.size() ? (got - want).cwiseAbs().maxCoeff() : 0;
        VP_CHECK(dev < 1e-9, log << ": overlap with " << os.str() << " deviates by " << dev);
    }
    // the state contributing most to each basis vector
    bool blank = false;
    for (size_t k = 0; k < cols; ++k) {
        blank |= sm::maxabs(a.B.col(static_cast<Eigen::Index>(k))) == 0;
    }
    if (!blank) {
        auto main = sys.getMainStates();
        VP_CHECK(main.size() == cols, log << ": " << main.size() << " main states for " << cols << " basis vectors");
        for (size_t k = 0; k < cols; ++k) {
            auto it = std::find(a.st.begin(), a.st.end(), main[k]);
            VP_CHECK(it != a.st.end(), log << ": the main state " << main[k].str() << " does not exist");
            auto v = a.B.col(static_cast<Eigen::Index>(k)).cwiseAbs();
            VP_CHECK(v(it - a.st.begin()) >= v.maxCoeff() - 1e-12, log << ": the main state of vector " << k << " contributes " << v(it - a.st.begin()) << ", another one " << v.maxCoeff());
        }
    } else {
        try {
            auto main = sys.getMainStates();
            VP_CHECK(main.size() == cols, log << ": " << main.size() << " main states for " << cols << " basis vectors");
        } catch (std::exception &) {
        }
    }
    // indices
    for (size_t i = 0; i < N; ++i) {
        VP_CHECK(sys.getStateIndex(a.st[i]) == i, log << ": wrong index of state " << a.st[i].str());
    }
    {
        auto idx = choose(src, N);
        std::vector<State> list;
        for (size_t i : idx) {
            list.push_back(a.st[i]);
        }
        VP_CHECK(sys.getStateIndex(list) == idx, log << ": wrong indices of states");
        State no = absent(src, a.st[0]), gen = blur(src, a.st[0]);
        VP_CHECK(vp::throws([&] { sys.getStateIndex(no); }) && vp::throws([&] { sys.getStateIndex(std::vector<State>{a.st[0], no}); }), log << ": index of a state that does not exist");
        VP_CHECK(vp::throws([&] { sys.getBasisvectorIndex(no); }) && vp::throws([&] { sys.getBasisvectorIndex(std::vector<State>{no}); }), log << ": basis vector of a state that does not exist");
        if (open(gen)) {
            VP_CHECK(vp::throws([&] { sys.getStateIndex(gen); }) && vp::throws([&] { sys.getStateIndex(std::vector<State>{gen}); }), log << ": index of a generalized state");
        }
        VP_CHECK(vp::throws([&] { sys.getBasisvectorIndex(std::vector<State>{a.st[0], a.st[0]}); }), log << ": repeated states were accepted");
    }
    for (size_t i = 0; i < N; ++i) {
        auto v = a.B.row(static_cast<Eigen::Index>(i)).cwiseAbs();
        if (v.maxCoeff() == 0) {
            VP_CHECK(vp::throws([&] { sys.getBasisvectorIndex(a.st[i]); }), log << ": basis vector of a state that contributes to none");
            vp::label("state without vector");
        } else if (v.maxCoeff() > 1e-10) {
            size_t k = sys.getBasisvectorIndex(a.st[i]);
            VP_CHECK(k < cols && v(static_cast<Eigen::Index>(k)) >= v.maxCoeff() - 1e-12, log << ": basis vector " << k << " for state " << a.st[i].str() << ", which contributes more to another one");
        }
    }
    {
        auto idx = choose(src, N);
        std::vector<State> list;
        for (size_t i : idx) {
            list.push_back(a.st[i]);
        }
        std::vector<std::pair<double, size_t>> total;
        for (size_t k = 0; k < cols; ++k) {
            double t = 0;
            for (size_t i : idx) {
                t += std::norm(a.B(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(k)));
            }
            total.emplace_back(-t, k);
        }
        std::sort(total.begin(), total.end());
        if (idx.size() > cols) {
            VP_CHECK(vp::throws([&] { sys.getBasisvectorIndex(list); }), log << ": basis vectors for more states than there are vectors");
        } else if (idx.size() == cols || total[idx.size()].first > total[idx.size() - 1].first + 1e-9) {
            std::set<size_t> best;
            std::map<size_t, size_t> of; // states dominating a vector
            bool clear = true;
            for (size_t k = 0; k < idx.size(); ++k) {
                size_t c = total[k].second;
                best.insert(c);
                for (size_t p = 0; p < idx.size(); ++p) {
                    if (std::norm(a.B(static_cast<Eigen::Index>(idx[p]), static_cast<Eigen::Index>(c))) > 0.5 + 1e-9) {
                        clear &= of.emplace(p, c).second;
                    }
                }
            }
            clear &= of.size() == idx.size();
            bool threw = false;
            std::vector<size_t> got;
            try {
                got = sys.getBasisvectorIndex(list);
            } catch (std::exception &e) {
                threw = true;
                VP_CHECK(!clear, log << ": no basis vectors for states " << vp::show(idx) << ": " << e.what());
            }
            if (!threw) {
                VP_CHECK(std::set<size_t>(got.begin(), got.end()) == best, log << ": basis vectors " << vp::show(got) << " for the states " << vp::show(idx) << " are not those with the largest overlap " << vp::show(best));
                if (clear) {
                    for (size_t p = 0; p < idx.size(); ++p) {
                        VP_CHECK(got[p] == of.at(p), log << ": basis vector " << got[p] << " for state " << idx[p] << " instead of " << of.at(p));
                    }
                    vp::label("assigned vectors");
                }
            }
        }
    }
    Snap<State> b(sys);
    VP_CHECK(unchanged(a, b), log << ": queries changed the system");

    // connections to another system
    auto spec2 = spec;
    Kind::change(src, spec2);
    std::string log2;
    auto other = prepared<Kind, S>(src, spec2, log2);
    log += " || " + spec2.str() + log2;
    VP_NOTE(" || " + spec2.str() + log2);
    double thr = src.flip() ? 0.001 : 0.1 * static_cast<double>(src.pick(0, 9));
    Snap<State> c(other);
    Mat T = Mat::Zero(a.B.rows(), c.B.rows());
    for (size_t i = 0; i < N; ++i) {
        for (size_t k = 0; k < c.st.size(); ++k) {
            T(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(k)) = a.st[i] == c.st[k] ? 1 : 0;
        }
    }
    Eigen::MatrixXd O = (a.B.adjoint() * T * c.B).cwiseAbs();
    auto con = sys.getConnections(other, thr);
    VP_CHECK(con[0].size() == con[1].size(), log << ": unpaired connections");
    std::set<std::pair<size_t, size_t>> got;
    for (size_t i = 0; i < con[0].size(); ++i) {
        VP_CHECK(con[0][i] < static_cast<size_t>(O.rows()) && con[1][i] < static_cast<size_t>(O.cols()), log << ": connection " << con[0][i] << "-" << con[1][i] << " of vectors that do not exist");
        VP_CHECK(got.emplace(con[0][i], con[1][i]).second, log << ": connection listed twice");
    }
    auto best = [](const Eigen::VectorXd &v, Eigen::Index &at) { // false: not unique
        double m = v.maxCoeff(&at);
        for (Eigen::Index i = 0; i < v.size(); ++i) {
            if (i != at && v(i) > m - 1e-9) {
                return false;
            }
        }
        return true;
    };
    size_t connected = 0;
    for (Eigen::Index i = 0; i < O.rows(); ++i) {
        for (Eigen::Index k = 0; k < O.cols(); ++k) {
            bool has = got.count({static_cast<size_t>(i), static_cast<size_t>(k)}) != 0;
            double row = O.row(i).maxCoeff(), col = O.col(k).maxCoeff();
            VP_CHECK(!has || (O(i, k) * O(i, k) > thr - 1e-9 && O(i, k) > row - 1e-9 && O(i, k) > col - 1e-9), log << ": threshold " << thr << ": " << i << " and " << k << " are connected, their overlap is " << O(i, k) * O(i, k));
            Eigen::Index x, y;
            if (!has && O(i, k) * O(i, k) > thr + 1e-9 && best(O.row(i).transpose(), x) && best(O.col(k), y)) {
                VP_CHECK(x != k || y != i, log << ": threshold " << thr << ": " << i << " and " << k << " are not connected, their overlap is " << O(i, k) * O(i, k));
            }
            connected += has;
        }
    }
    if (connected > 1) {
        vp::label("connected");
    }
}

template <typename Kind, typename S>
void thresholds(vp::Src &src) {
    using State = typename Kind::State;
    sm::Quiet quiet;
    auto spec = Kind::gen(src);
    std::string log = spec.str() + (sm::is_complex<S> ? " complex" : " real");
    auto sys = Kind::bare(spec);
    Kind::set(sys, spec);
    double thr = src.logreal(1e-6, 0.9);
    VP_NOTE(log + " threshold " + std::to_string(thr));
    auto full = sys, mixed = sys;
    Mat off = sm::dense(full.getHamiltonian());
    off.diagonal().setZero();
    bool diagonal = sm::maxabs(off) < 1e-12; // nothing to do
    full.diagonalize();
    Snap<State> f(full);
    // pruning
    sys.diagonalize(thr);
    Snap<State> p(sys);
    VP_CHECK(p.st == f.st && p.B.cols() == f.B.cols() && sm::maxabs(p.H - f.H) <= f.limit(), log << ": a threshold changed the energies");
    size_t dropped = 0;
    for (Eigen::Index i = 0; i < f.B.rows(); ++i) {
        for (Eigen::Index k = 0; k < f.B.cols(); ++k) {
            double v = std::abs(f.B(i, k)), w = std::abs(p.B(i, k));
            if (std::abs(v - thr) < 1e-9) {
                continue;
            }
            // degenerate eigenvectors are compared as well: the same routine works on the same matrix
            VP_CHECK(v < thr ? w == 0 || (diagonal && w == v) : std::abs(p.B(i, k) - f.B(i, k)) < 1e-12, log << ": threshold " << thr << " turned the contribution " << f.B(i, k) << " into " << p.B(i, k));
            dropped += v > 1e-14 && v < thr;
        }
    }
    vp::label(dropped ? "contributions dropped" : "nothing dropped");
    // forgetting the mixing
    bool possible = true, edge = false;
    Mat want = Mat::Zero(f.B.rows(), f.B.cols());
    for (Eigen::Index k = 0; k < f.B.cols(); ++k) {
        Eigen::Index at;
        double m = f.B.col(k).cwiseAbs2().maxCoeff(&at);
        edge |= std::abs(m - 0.5) < 1e-9;
        possible &= m > 0.5;
        want(at, k) = 1;
    }
    if (!edge) {
        bool threw = vp::throws([&] { mixed.forgetStatemixing(); });
        VP_CHECK(threw != possible, log << ": forgetting the mixing " << (threw ? "failed" : "was possible") << " although " << (possible ? "every" : "not every") << " eigenvector has a main state");
        Snap<State> m(mixed);
        VP_CHECK(m.st == f.st && sm::maxabs(m.H - f.H) <= f.limit(), log << ": forgetting the mixing changed the energies");
        VP_CHECK(sm::maxabs(m.B - (possible ? want : f.B)) < 1e-12, log << ": forgetting the mixing: the basis vectors are not the " << (possible ? "main states" : "eigenvectors"));
        vp::label(possible ? "mixing forgotten" : "mixing refused");
    }
    vp::nontrivial(dropped || (possible && sm::maxabs(f.B - want) > 0.01));
}

template <typename Kind, typename S>
void there_and_back(vp::Src &src) {
    using State = typename Kind::State;
    sm::Quiet quiet;
    auto spec = Kind::gen(src);
    std::string log = spec.str() + (sm::is_complex<S> ? " complex" : " real");
    auto sys = Kind::bare(spec);
    Kind::set(sys, spec);
    Snap<State> a(sys);
    double x, y, z;
    gen_angles<S>(src, x, y, z);
    Mat R = rotator(a.st, x, y, z);
    if (sm::maxabs(R * R.adjoint() - Mat::Identity(R.rows(), R.cols())) > 1e-9) {
        throw vp::Discard();
    }
    bool diag = src.flip(), canon = src.flip();
    VP_NOTE(log + " " + vp::show(Vec3{{x, y, z}}) + (diag ? " diagonalize" : "") + (canon ? " canonicalize" : ""));
    Eigen::VectorXd before = sys.getOverlap(a.st[0]), wb;
    sys.rotate(x, y, z);
    if (diag) {
        sys.diagonalize();
    }
    if (canon) {
        sys.canonicalize();
    }
    double d = sm::distance(sm::spectrum(sm::dense(sys.getHamiltonian())), sm::spectrum(a.H));
    VP_CHECK(d <= a.limit(), log << ": the energies changed by " << d);
    sys.rotate(-z, -y, -x);
    if (diag || canon) {
        sys.canonicalize();
    }
    Snap<State> b(sys);
    VP_CHECK(b.st == a.st && sm::maxabs(b.gram() - a.gram()) < 1e-9, log << ": rotating back does not restore the space of the basis vectors");
    VP_CHECK(diag || canon || sm::maxabs(b.B.cwiseAbs() - a.B.cwiseAbs()) < 1e-9, log << ": rotating back does not restore the basis");
    VP_CHECK(sm::maxabs(b.canonical() - a.canonical()) <= a.limit() * 10, log << ": rotating back does not restore the Hamiltonian, deviation " << sm::maxabs(b.canonical() - a.canonical()));
    vp::nontrivial(sm::maxabs(R - Mat::Identity(R.rows(), R.cols())) > 0.1);
}

// effective Hamiltonian: energies of the selected eigenvectors, acting in the space of the unperturbed
// vectors through the most direct rotation between the two spaces
template <typename Kind, typename S>
void schrieffer_wolff(vp::Src &src) {
    using State = typename Kind::State;
    sm::Quiet quiet;
    auto spec = Kind::gen(src);
    std::string log = spec.str() + (sm::is_complex<S> ? " complex" : " real");
    auto sys = Kind::bare(spec), sys0 = Kind::bare(spec);
    sys0.diagonalize();
    auto idx = choose(src, std::min<size_t>(sys0.getNumBasisvectors(), 5));
    sys0.constrainBasisvectors(idx);
    if (src.flip()) { // a part of the eigenvectors is another unperturbed system
        sys0.diagonalize();
    }
    double scale = src.chance(1, 3) ? 1 : src.logreal(0.01, 1);
    if constexpr (std::is_same<Kind, OneKind<S>>::value) {
        for (Vec3 *v : {&spec.e, &spec.b}) {
            for (double &x : *v) {
                x *= scale;
            }
        }
    } else {
        for (double &x : spec.r) {
            x /= std::cbrt(scale);
        }
        if (spec.surface != NEVER) {
            spec.surface /= std::cbrt(scale);
        }
    }
    log += "; " + vp::show(idx) + " scale " + std::to_string(scale);
    VP_NOTE(log);
    Kind::set(sys, spec);
    if (src.flip()) {
        sys.diagonalize();
    }
    sys.diagonalize();
    Snap<State> a(sys), z(sys0);
    Mat L0 = Mat::Zero(a.B.rows(), z.B.cols());
    for (size_t i = 0; i < a.st.size(); ++i) {
        for (size_t k = 0; k < z.st.size(); ++k) {
            if (a.st[i] == z.st[k]) {
                L0.row(static_cast<Eigen::Index>(i)) = z.B.row(static_cast<Eigen::Index>(k));
            }
        }
    }
    Eigen::VectorXd ov = (a.B.adjoint() * L0).cwiseAbs2().rowwise().sum();
    std::vector<Eigen::Index> by(static_cast<size_t>(ov.size()));
    std::iota(by.begin(), by.end(), 0);
    std::sort(by.begin(), by.end(), [&](Eigen::Index p, Eigen::Index q) { return ov(p) > ov(q); });
    auto k = static_cast<size_t>(L0.cols());
    if (k < by.size() && ov(by[k]) > ov(by[k - 1]) - 1e-6) {
        throw vp::Discard(); // no unique choice
    }
    Mat L(a.B.rows(), L0.cols());
    for (size_t i = 0; i < k; ++i) {
        L.col(static_cast<Eigen::Index>(i)) = a.B.col(by[i]);
    }
    Mat P = L * L.adjoint(), G = L0.adjoint() * P * L0;
    Eigen::SelfAdjointEigenSolver<Mat> es(G);
    double worst = es.eigenvalues().minCoeff();
    if (worst < 0.05) {
        throw vp::Discard(); // (nearly) orthogonal spaces
    }
    Mat Bn = P * L0 * es.operatorInverseSqrt();
    Mat T = a.B.adjoint() * Bn, Hn = T.adjoint() * a.H * T;
    sys.applySchriefferWolffTransformation(sys0);
    Snap<State> b(sys);
    VP_CHECK(b.st == a.st, log << ": the list of states changed");
    VP_CHECK(b.B.cols() == Bn.cols() && sm::maxabs(b.B - Bn) < 1e-7, log << ": the basis vectors deviate from the transformed ones by " << sm::maxabs(b.B - Bn));
    VP_CHECK(sm::maxabs(b.H - Hn) < 1e-7 * (1 + sm::maxabs(a.H) * 1e-3), log << ": the effective Hamiltonian deviates by " << sm::maxabs(b.H - Hn));
    std::vector<double> e;
    for (size_t i = 0; i < k; ++i) {
        e.push_back(a.H(by[i], by[i]).real());
    }
    double d = sm::distance(e, sm::spectrum(b.H));
    VP_CHECK(d <= 1e-7 * (1 + sm::maxabs(a.H) * 1e-3), log << ": the energies of the effective Hamiltonian deviate by " << d);
    vp::nontrivial(worst < 0.999999);
    // refused
    if (src.chance(1, 3)) {
        auto other = Kind::bare(spec), mix = Kind::bare(spec);
        Kind::set(mix, spec);
        if (sm::maxabs(sm::dense(mix.getHamiltonian()) - Mat(sm::dense(mix.getHamiltonian()).diagonal().asDiagonal())) > 1e-6) {
            Snap<State> m(mix);
            Snap<State> o(other);
            VP_CHECK(vp::throws([&] { other.applySchriefferWolffTransformation(mix); }), log << ": an unperturbed system that is not diagonal was accepted");
        }
    }
}
} // namespace
VP_FACET("queries of one atom", 1500, 6000, "some basis vector mixes several states") { src.flip() ? queries<OneKind<cd>, cd>(src) : queries<OneKind<double>, double>(src); }
VP_FACET("queries of two atoms", 1000, 4000, "some basis vector mixes several states") { src.flip() ? queries<TwoKind<cd>, cd>(src) : queries<TwoKind<double>, double>(src); }
VP_FACET("thresholds", 1000, 5000, "the threshold or forgetting the mixing dropped contributions") {
    switch (src.choice(3)) {
    case 0:
        return thresholds<OneKind<cd>, cd>(src);
    case 1:
        return thresholds<OneKind<double>, double>(src);
    case 2:
        return thresholds<TwoKind<cd>, cd>(src);
    default:
        return thresholds<TwoKind<double>, double>(src);
    }
}
VP_FACET("there and back", 1000, 4000, "the rotation changes the basis vectors") {
    switch (src.choice(3)) {
    case 0:
        return there_and_back<OneKind<cd>, cd>(src);
    case 1:
        return there_and_back<OneKind<double>, double>(src);
    case 2:
        return there_and_back<TwoKind<cd>, cd>(src);
    default:
        return there_and_back<TwoKind<double>, double>(src);
    }
}
VP_FACET("effective Hamiltonians", 1000, 5000, "the selected eigenvectors differ from the unperturbed ones") {
    switch (src.choice(3)) {
    case 0:
        return schrieffer_wolff<OneKind<cd>, cd>(src);
    case 1:
        return schrieffer_wolff<OneKind<double>, double>(src);
    case 2:
        return schrieffer_wolff<TwoKind<cd>, cd>(src);
    default:
        return schrieffer_wolff<TwoKind<double>, double>(src);
    }
}
