// C20: the result of a system depends on its settings only, not on how they were reached.
#include "sysseen.hpp"

namespace {
using sm::cd;
using sm::Mat;
using sm::One;
using sm::Quiet;
using sm::Two;
using sm::Vec3;
const double FAR = std::numeric_limits<double>::max();

using sm::look;
using sm::same;
using sm::Seen;
// questions that must not change anything
template <typename Sys, typename State>
std::string query(vp::Src &src, Sys &sys) {
    Quiet quiet;
    try {
        auto st = sys.getStates();
        const State &s = st[src.choice(st.size() - 1)], &t = st[src.choice(st.size() - 1)];
        switch (src.choice(8)) {
        case 0:
            sys.getOverlap(s);
            return "overlap";
        case 1:
            sys.getOverlap(s, 0., src.sym(3), 0.);
            return "rotated overlap";
        case 2:
            sys.getMainStates();
            return "main states";
        case 3:
            sys.getConnections(sys, 0.1);
            return "connections";
        case 4:
            sys.getHamiltonianEntry(s, t);
            return "entry";
        case 5:
            sys.getStateIndex(s);
            return "state index";
        case 6:
            sys.getBasisvectorIndex(s);
            return "basis vector index";
        case 7:
            sys.getNumStates();
            sys.getNumBasisvectors();
            return "sizes";
        default:
            sys.buildInteraction();
            return "interaction";
        }
    } catch (const std::exception &) { // of settings that are refused
        return "refused query";
    }
}
// transformations of the present basis, that are undone by the next change
template <typename Sys>
std::string transform(vp::Src &src, Sys &sys, bool canonical) {
    Quiet quiet;
    try {
        if (canonical) { // the basis vectors may be incomplete
            Mat B = sm::dense(sys.getBasisvectors());
            canonical = sm::maxabs(B.adjoint() * B - Mat::Identity(B.cols(), B.cols())) < 1e-12;
        }
        switch (src.choice(canonical ? 2 : 0)) {
        case 0:
            sys.diagonalize();
            return "diagonalize";
        case 1:
            sys.diagonalize();
            sys.diagonalize();
            sys.canonicalize();
            return "diagonalize, canonicalize";
        default:
            sys.canonicalize();
            return "canonicalize";
        }
    } catch (const std::exception &) {
        return "refused transformation";
    }
}

// --- one atom ----------------------------------------------------------------------------------
struct OneModel {
    One o;
    parity_t reflection = NA;
    std::set<float> momenta{static_cast<float>(ARB)};
    bool fresh = true; // nothing has been set, so that there is no Hamiltonian to be built
    template <typename S>
    SystemOne<S> make() const {
        Quiet quiet;
        SystemOne<S> sys(o.species, sm::cache());
        o.restrict(sys);
        sys.setConservedParityUnderReflection(reflection);
        sys.setConservedMomentaUnderRotation(momenta);
        if (!fresh) {
            o.settings(sys);
        }
        return sys;
    }
};
template <typename S>
struct OneLive {
    OneModel m;
    SystemOne<S> sys;
    std::string log;
    bool mixed = false, built = false, canonical = false;
};
template <typename S>
void check(OneLive<S> &x) {
    auto ref = x.m.template make<S>();
    auto w = look<SystemOne<S>, StateOne>(ref), g = look<SystemOne<S>, StateOne>(x.sys);
    std::ostringstream os;
    os << x.m.o.str() << (sm::is_complex<S> ? " complex" : " real") << " reflection " << x.m.reflection << " |" << x.log;
    same(g, w, os.str(), x.mixed, x.canonical);
    x.built = x.built || !g.refused;
}
Vec3 change(vp::Src &src, double hi, bool complex) {
    Vec3 f = sm::field3(src, hi, complex);
    if (src.flip()) {
        int keep = src.chance(1, 2) ? 2 : static_cast<int>(src.choice(2));
        for (int x = 0; x < 3; ++x) {
            f[x] = x == keep ? f[x] : 0;
        }
    }
    return f;
}
template <typename S>
void apply_one(vp::Src &src, OneLive<S> &x) {
    Quiet quiet;
    One &o = x.m.o;
    std::ostringstream log;
    long long op = src.choice(13);
    if (op <= 5) {
        x.mixed = x.canonical = x.m.fresh = false;
    }
    switch (op) {
    case 0:
        o.e = change(src, 50, sm::is_complex<S>);
        x.sys.setEfield(o.e);
        log << "E" << vp::show(o.e);
        break;
    case 1:
        o.b = change(src, 800, sm::is_complex<S>);
        x.sys.setBfield(o.b);
        log << "B" << vp::show(o.b);
        break;
    case 2:
        o.diamagnetism = src.flip();
        x.sys.enableDiamagnetism(o.diamagnetism);
        log << "diamagnetism " << o.diamagnetism;
        break;
    case 3:
        o.charge = static_cast<int>(src.pick(-2, 2));
        x.sys.setIonCharge(o.charge);
        log << "charge " << o.charge;
        break;
    case 4:
        o.order = static_cast<unsigned>(src.pick(0, 3));
        x.sys.setRydIonOrder(o.order);
        log << "order " << o.order;
        break;
    case 5:
        o.distance = src.logreal(0.5, 20);
        x.sys.setRydIonDistance(o.distance);
        log << "distance " << o.distance;
        break;
    case 6:
    case 7:
        log << "look";
        x.log += " " + log.str();
        check(x);
        return;
    case 8:
    case 9: {
        std::string s = transform(src, x.sys, !x.m.fresh);
        log << s;
        x.mixed = x.mixed || s[0] != 'r';
        x.canonical = x.canonical || (s[0] != 'r' && s != "diagonalize");
        break;
    }
    case 10:
        log << query<SystemOne<S>, StateOne>(src, x.sys);
        break;
    case 11: { // changes that are refused
        bool thrown = false;
        std::string what;
        switch (src.choice(7)) {
        case 5:
            if (!x.built || x.m.fresh) {
                break;
            }
            what = "restriction to nothing";
            x.sys.restrictN(std::set<int>{90});
            thrown = vp::throws([&] { x.sys.getStates(); });
            break;
        case 6:
            if (!x.built) {
                break;
            }
            what = "state added to a built basis";
            x.sys.addStates(StateOne("G"));
            thrown = vp::throws([&] { x.sys.getNumStates(); });
            break;
        case 0:
            if (sm::is_complex<S>) {
                break;
            }
            what = "E along y";
            thrown = vp::throws([&] { x.sys.setEfield({{0.3, 2, 0.1}}); });
            break;
        case 1:
            if (sm::is_complex<S>) {
                break;
            }
            what = "B along y";
            thrown = vp::throws([&] { x.sys.setBfield({{30, 200, 10}}); });
            break;
        case 2:
            what = "E with axes that are not orthogonal";
            thrown = vp::throws([&] { x.sys.setEfield({{0.3, 0, 0.1}}, {{0, 0, 1}}, {{0, 1, 0.1}}); });
            break;
        case 3:
            what = "unknown state";
            thrown = vp::throws([&] { x.sys.getStateIndex(StateOne(o.species, 90, 0, static_cast<float>(mx::spin(o.species)), static_cast<float>(mx::spin(o.species)))); });
            break;
        case 4:
            what = "unknown basis vector";
            thrown = vp::throws([&] { x.sys.constrainBasisvectors({0, 100000}); });
            x.built = true;
            break;
        default: {
            what = "other species";
            SystemOne<S> other(o.species == "Cs" ? "Rb" : "Cs", sm::cache());
            other.restrictN(20, 20);
            other.restrictL(0, 0);
            thrown = vp::throws([&] { x.sys.add(other); });
        }
        }
        if (!what.empty()) {
            VP_CHECK(thrown, x.m.o.str() << x.log << ": " << what << " is not refused");
            vp::label("refused: " + what);
            log << "refused " << what;
        }
        break;
    }
    case 12: // symmetries are fixed as soon as there is a basis
        if (x.built) {
            VP_CHECK(vp::throws([&] { src.flip() ? x.sys.setConservedParityUnderReflection(x.m.reflection == EVEN ? ODD : EVEN) : x.sys.setConservedMomentaUnderRotation({0.5f, 7.5f}); }), x.m.o.str() << x.log << ": the symmetry was changed after the basis had been built");
            log << "refused symmetry";
            vp::label("refused: symmetry of a built basis");
        }
        break;
    default: // restrictions of a basis
        if (x.mixed || (x.m.reflection == NA && x.m.momenta.count(static_cast<float>(ARB)) == 0) || x.m.reflection != NA) {
            break;
        }
        {
            One p = o;
            switch (src.choice(2)) {
            case 0:
                p.n = {*o.n.begin()};
                break;
            case 1:
                p.l = {*o.l.rbegin()};
                break;
            default:
                p.m.clear();
                for (auto &s : o.states()) {
                    if (s.getM() > 0) {
                        p.m.insert(s.getM());
                    }
                }
                if (p.m.empty()) {
                    return;
                }
            }
            if (p.states().empty()) {
                break;
            }
            try {
                x.sys.restrictN(p.n);
                if (!p.l.empty()) {
                    x.sys.restrictL(p.l);
                }
                if (!p.m.empty()) {
                    x.sys.restrictM(p.m);
                }
                x.sys.getNumStates();
                o = p;
                log << "restricted to " << o.str();
            } catch (const std::exception &e) {
                VP_CHECK(false, o.str() << x.log << ": restricting to " << p.str() << " fails: " << e.what());
            }
        }
    }
    x.log += " " + log.str();
}
template <typename S>
bool history_one(vp::Src &src) {
    OneModel m;
    m.o = sm::gen_one(src, 14, sm::is_complex<S>);
    m.o.e = m.o.b = {{0, 0, 0}};
    m.o.diamagnetism = true;
    m.o.charge = 0;
    m.o.order = 0;
    m.o.distance = FAR;
    if (src.chance(1, 4)) { // reflection needs both signs of m
        m.o.m.clear();
        m.reflection = src.flip() ? EVEN : ODD;
        vp::label("reflection");
        if (m.o.states().size() > 20) {
            throw vp::Discard();
        }
        if (!sm::is_complex<S> && std::fmod(mx::spin(m.o.species), 1.) != 0) {
            m.reflection = NA;
        }
    } else if (src.chance(1, 4)) {
        auto st = m.o.states();
        m.momenta.clear();
        for (auto &s : st) {
            if (src.flip() || m.momenta.empty()) {
                m.momenta.insert(s.getM());
            }
        }
        vp::label("momenta");
    }
    std::vector<OneLive<S>> live;
    live.push_back({m, m.template make<S>(), "", false, false, false});
    long long steps = src.pick(3, 24);
    size_t at = 0;
    int checks = 0;
    for (long long i = 0; i < steps; ++i) {
        if (live.size() < 3 && src.chance(1, 8)) { // both copies have to be independent of each other
            live.push_back(live[at]);
            live.back().log += " (copied)";
            vp::label("copied");
        }
        at = src.choice(live.size() - 1);
        bool b = live[at].built;
        apply_one(src, live[at]);
        checks += b;
    }
    VP_NOTE(live[at].m.o.str() << " |" << live[at].log);
    for (auto &x : live) {
        check(x);
    }
    return checks > 1;
}
} // namespace

VP_FACET("history of one atom", 6000, 15000, "the basis had been built before the last operations") { vp::nontrivial(src.flip() ? history_one<cd>(src) : history_one<double>(src)); }

// --- two atoms ---------------------------------------------------------------------------------
namespace {
struct TwoModel {
    One a, b;
    std::set<int> n, l; // restrictions of the pair
    Vec3 d{{0, 0, FAR}};
    double distance = FAR, surface = FAR, order = 3;
    bool green = false, fresh = true;
    parity_t permutation = NA, inversion = NA, reflection = NA;
    std::set<int> momenta{ARB};
    std::vector<std::array<size_t, 2>> chosen;
    template <typename S>
    SystemTwo<S> make() const {
        Quiet quiet;
        SystemTwo<S> sys(a.make<S>(), b.make<S>(), sm::cache());
        symmetries(sys);
        if (fresh) {
            return sys;
        }
        sys.setOrder(order);
        if (distance != FAR) {
            sys.setDistanceVector(d);
            if (surface != FAR) {
                sys.setSurfaceDistance(surface);
            }
        }
        if (surface == FAR || green) {
            sys.enableGreenTensor(green);
        }
        return sys;
    }
    template <typename S>
    void symmetries(SystemTwo<S> &sys) const {
        if (!n.empty()) {
            sys.restrictN(n);
        }
        if (!l.empty()) {
            sys.restrictL(l);
        }
        sys.setConservedParityUnderPermutation(permutation);
        sys.setConservedParityUnderInversion(inversion);
        sys.setConservedMomentaUnderRotation(momenta);
        sys.setOneAtomBasisvectors(chosen);
    }
    std::string str() const {
        std::ostringstream os;
        os.precision(12);
        os << "[" << a.str() << " | " << b.str() << " | r" << vp::show(d) << " order " << order << " permutation " << permutation << " inversion " << inversion << (momenta.count(ARB) ? "" : " momenta " + vp::show(momenta)) << (green ? " green" : "");
        if (surface != FAR) {
            os << " surface " << surface;
        }
        if (!chosen.empty()) {
            os << " " << chosen.size() << " chosen products";
        }
        os << "]";
        return os.str();
    }
};
template <typename S>
struct TwoLive {
    TwoModel m;
    SystemTwo<S> sys;
    std::string log;
    bool mixed = false, built = false, canonical = false;
};
template <typename S>
void check(TwoLive<S> &x) {
    auto ref = x.m.template make<S>();
    auto w = look<SystemTwo<S>, StateTwo>(ref), g = look<SystemTwo<S>, StateTwo>(x.sys);
    if (w.refused) {
        vp::label("refused settings");
    }
    same(g, w, x.m.str() + (sm::is_complex<S> ? " complex |" : " real |") + x.log, x.mixed, x.canonical);
    x.built = x.built || !g.refused;
}
template <typename S>
void apply_two(vp::Src &src, TwoLive<S> &x) {
    Quiet quiet;
    TwoModel &m = x.m;
    std::ostringstream log;
    long long op = src.choice(12);
    if (op <= 6 && op != 4) {
        x.mixed = x.canonical = m.fresh = false;
    }
    double R = sm::gen_distance(src, std::max(*m.a.n.rbegin(), *m.b.n.rbegin()));
    switch (op) {
    case 0: {
        double f = R / m.distance;
        if (src.chance(1, 12)) {
            R = FAR;
            f = 1;
        }
        x.sys.setDistance(R);
        for (double &v : m.d) {
            v = R == FAR ? v / m.distance * R : m.distance == FAR ? v / FAR * R : v * f;
        }
        m.distance = R;
        log << "distance " << R;
        break;
    }
    case 1:
    case 2: {
        double th = src.choice(3) == 0 ? 0 : src.sym(3.1), ph = src.chance(1, sm::is_complex<S> ? 3 : 12) ? src.sym(3.1) : 0;
        m.d = {{R * std::sin(th) * std::cos(ph), R * std::sin(th) * std::sin(ph), R * std::cos(th)}};
        x.sys.setDistanceVector(m.d);
        m.distance = R;
        m.green = m.green || m.d[1] != 0;
        log << "vector " << vp::show(m.d);
        break;
    }
    case 3: {
        double th = src.choice(3) == 0 ? 0 : src.choice(3) == 0 ? std::acos(-1) * static_cast<double>(src.pick(-1, 2)) / 2 : src.sym(3.1);
        x.sys.setAngle(th);
        m.d = {{m.distance * std::sin(th), 0, m.distance * std::cos(th)}};
        log << "angle " << th;
        break;
    }
    case 4: {
        bool on = src.flip();
        bool refuse = !on && m.surface != FAR;
        bool thrown = vp::throws([&] { x.sys.enableGreenTensor(on); });
        VP_CHECK(thrown == refuse, m.str() << x.log << ": switching the Green tensor " << (on ? "on" : "off") << (thrown ? " is refused" : " is accepted"));
        if (!thrown) {
            m.green = on;
            x.mixed = x.canonical = m.fresh = false;
        } else {
            vp::label("refused: no Green tensor with a plate");
        }
        log << "green " << on;
        break;
    }
    case 5:
        m.order = static_cast<double>(src.choice(2) == 0 ? src.pick(2, 6) : src.pick(3, 4));
        x.sys.setOrder(m.order);
        log << "order " << m.order;
        break;
    case 6:
        m.surface = src.flip() || m.distance == FAR ? FAR : std::abs(m.d[2]) / 2 + R * src.logreal(0.05, 4);
        x.sys.setSurfaceDistance(m.surface);
        m.green = m.green || m.surface != FAR;
        log << "surface " << m.surface;
        break;
    case 7:
    case 8:
        log << "look";
        x.log += " " + log.str();
        check(x);
        return;
    case 9: {
        std::string s = transform(src, x.sys, !m.fresh);
        log << s;
        x.mixed = x.mixed || s[0] != 'r';
        x.canonical = x.canonical || (s[0] != 'r' && s != "diagonalize");
        break;
    }
    case 10:
        if (src.chance(1, 5)) {
            vp::throws([&] { x.sys.getStatesFirst(); });
            vp::throws([&] { x.sys.getStatesSecond(); });
            log << "one-atom states";
        } else {
            log << query<SystemTwo<S>, StateTwo>(src, x.sys);
        }
        break;
    case 11: {
        bool thrown = false, must = x.built;
        std::string what;
        switch (src.choice(5)) {
        case 3:
            what = "restriction to nothing";
            must = true;
            x.sys.restrictEnergy(1e9, 2e9);
            thrown = vp::throws([&] { x.sys.getStates(); });
            if (!x.built) { // remains in force
                x.sys.restrictEnergy(std::numeric_limits<double>::lowest(), FAR);
            }
            break;
        case 4:
            if (!x.built) {
                break;
            }
            what = "state added to a built basis";
            must = true;
            x.sys.addStates(StateTwo({{"G", "G"}}));
            thrown = vp::throws([&] { x.sys.getNumStates(); });
            break;
        case 0:
            what = "chosen products twice";
            must = true;
            thrown = vp::throws([&] { x.sys.setOneAtomBasisvectors({{{0, 0}}, {{0, 1}}, {{0, 0}}}); });
            break;
        case 1:
            if (x.built) {
                what = "symmetry of a built basis";
                thrown = vp::throws([&] {
                    switch (src.choice(3)) {
                    case 0:
                        return x.sys.setConservedParityUnderInversion(m.inversion == EVEN ? ODD : EVEN);
                    case 1:
                        return x.sys.setConservedParityUnderPermutation(m.permutation == EVEN ? ODD : EVEN);
                    case 2:
                        return x.sys.setConservedMomentaUnderRotation({1, 5});
                    default:
                        return x.sys.setOneAtomBasisvectors({{{0, 0}}});
                    }
                });
            }
            break;
        case 2:
            what = "arbitrary and given momenta";
            must = true;
            thrown = vp::throws([&] { x.sys.setConservedMomentaUnderRotation({ARB, 1}); });
            break;
        default:
            what = "unknown basis vector";
            must = true;
            thrown = vp::throws([&] { x.sys.constrainBasisvectors({0, 1000000}); });
        }
        if (!what.empty()) {
            VP_CHECK(thrown == must, m.str() << x.log << ": " << what << " is not refused");
            vp::label("refused: " + what);
            log << "refused " << what;
        }
        break;
    }
    default:
        if (x.mixed || m.permutation != NA || m.inversion != NA || !m.momenta.count(ARB) || !m.chosen.empty() || m.a.e != Vec3{{0, 0, 0}} || m.b.e != Vec3{{0, 0, 0}} || m.a.b != Vec3{{0, 0, 0}} || m.b.b != Vec3{{0, 0, 0}}) {
            break;
        }
        { // restrictions of a basis of products of states
            TwoModel p = m;
            if (src.flip()) {
                p.l = m.a.l;
                p.l.insert(m.b.l.begin(), m.b.l.end());
                p.l.erase(src.flip() ? p.l.begin() : std::prev(p.l.end()));
                if (!m.l.empty() && !std::includes(m.l.begin(), m.l.end(), p.l.begin(), p.l.end())) {
                    break;
                }
            } else {
                p.n = m.a.n;
                p.n.insert(m.b.n.begin(), m.b.n.end());
                p.n.erase(src.flip() ? p.n.begin() : std::prev(p.n.end()));
                if (!m.n.empty() && !std::includes(m.n.begin(), m.n.end(), p.n.begin(), p.n.end())) {
                    break;
                }
            }
            auto left = [&](const One &o) {
                for (auto &s : o.states()) {
                    if ((p.n.empty() || p.n.count(s.getN())) && (p.l.empty() || p.l.count(s.getL()))) {
                        return true;
                    }
                }
                return false;
            };
            if (!left(p.a) || !left(p.b) || p.l.empty() + p.n.empty() == 2) {
                break;
            }
            try {
                if (!p.n.empty()) {
                    x.sys.restrictN(p.n);
                }
                if (!p.l.empty()) {
                    x.sys.restrictL(p.l);
                }
                x.sys.getNumStates();
            } catch (const std::exception &e) {
                VP_CHECK(false, m.str() << x.log << ": restricting to n" << vp::show(p.n) << " l" << vp::show(p.l) << " fails: " << e.what());
            }
            m = p;
            vp::label("restricted");
            log << "restricted to n" << vp::show(m.n) << " l" << vp::show(m.l);
        }
    }
    x.log += " " + log.str();
}
template <typename S>
bool history_two(vp::Src &src) {
    Two t = sm::gen_two(src, 6, sm::is_complex<S>, src.flip());
    TwoModel m;
    m.a = t.a;
    m.b = t.b;
    bool same_atoms = m.a.str() == m.b.str();
    for (One *o : {&m.a, &m.b}) {
        if (src.flip()) {
            o->e = o->b = {{0, 0, 0}};
        }
    }
    if (same_atoms) {
        m.b = m.a;
    }
    std::string log;
    switch (src.choice(4)) {
    case 0:
        if (same_atoms) {
            m.permutation = src.flip() ? EVEN : ODD;
            vp::label("permutation");
        }
        break;
    case 1:
        if (same_atoms && m.a.e == Vec3{{0, 0, 0}}) {
            m.inversion = src.flip() ? EVEN : ODD;
            vp::label("inversion");
        }
        break;
    case 2:
        if (std::fmod(mx::spin(m.a.species) + mx::spin(m.b.species), 1.) == 0) {
            m.momenta = {static_cast<int>(src.pick(-1, 2)), static_cast<int>(src.pick(-1, 2))};
            vp::label("momenta");
        }
        break;
    case 3: {
        size_t na = m.a.states().size(), nb = m.b.states().size();
        for (size_t i = 0; i < na; ++i) {
            for (size_t k = 0; k < nb; ++k) {
                if (src.flip()) {
                    m.chosen.push_back({{i, k}});
                }
            }
        }
        vp::label("chosen products");
        break;
    }
    default:
        break;
    }
    std::vector<TwoLive<S>> live;
    {
        Quiet quiet;
        // the one-atom systems with a history of their own
        auto prepare = [&](const One &o) {
            One p = o;
            bool other = src.flip();
            if (other) {
                p.e = change(src, 20, sm::is_complex<S>);
                p.b = change(src, 200, sm::is_complex<S>);
            }
            auto s = p.make<S>();
            if (src.flip()) {
                src.flip() ? s.diagonalize() : s.buildHamiltonian();
            }
            if (other) {
                s.setEfield(o.e);
                s.setBfield(o.b);
            }
            if (src.chance(1, 4)) {
                s.diagonalize();
            }
            return s;
        };
        auto a = prepare(m.a);
        auto b = same_atoms && src.flip() ? a : prepare(m.b);
        SystemTwo<S> sys(a, b, sm::cache());
        a.setEfield({{1, 0, 0}}); // must not matter any more
        b.diagonalize();
        m.symmetries(sys);
        live.push_back({m, std::move(sys), "", false, false, false});
    }
    long long steps = src.pick(3, 20);
    size_t at = 0;
    int checks = 0;
    for (long long i = 0; i < steps; ++i) {
        if (live.size() < 3 && src.chance(1, 10)) {
            live.push_back(live[at]);
            live.back().log += " (copied)";
            vp::label("copied");
        }
        at = src.choice(live.size() - 1);
        bool b = live[at].built;
        apply_two(src, live[at]);
        checks += b;
    }
    VP_NOTE(live[at].m.str() << " |" << live[at].log);
    for (auto &x : live) {
        check(x);
    }
    return checks > 1;
}
} // namespace

VP_FACET("history of two atoms", 5000, 12000, "the basis had been built before the last operations") { vp::nontrivial(src.flip() ? history_two<cd>(src) : history_two<double>(src)); }

// --- combining systems -------------------------------------------------------------------------
namespace {
// the basis of a part in terms of the states of the union
template <typename Sys, typename State>
Mat embedded(Sys &part, const std::vector<State> &all, const std::string &what) {
    auto st = part.getStates();
    Mat B = sm::dense(part.getBasisvectors());
    Mat X = Mat::Zero(static_cast<Eigen::Index>(all.size()), B.cols());
    std::map<State, Eigen::Index> at;
    for (size_t i = 0; i < all.size(); ++i) {
        at[all[i]] = static_cast<Eigen::Index>(i);
    }
    for (size_t i = 0; i < st.size(); ++i) {
        VP_CHECK(at.count(st[i]), what << ": a part contains the state " << st[i].str() << " that the union does not contain");
        X.row(at[st[i]]) = B.row(static_cast<Eigen::Index>(i));
    }
    return X;
}
// adds the parts in random order; `build`: their Hamiltonians exist already. Returns whether the result is expected
// to be the one of the union before the next change.
template <typename Sys, typename State>
bool combine(vp::Src &src, std::vector<Sys> &parts, Sys &full, bool build, bool fresh, const std::string &what, std::string &log) {
    Quiet quiet;
    bool exact = true;
    if (build) {
        auto f = look<Sys, State>(full);
        if (f.refused) {
            throw vp::Discard();
        }
        Mat H = f.B * f.H * f.B.adjoint();
        std::vector<Mat> b;
        for (auto &p : parts) {
            p.getHamiltonian();
            b.push_back(embedded<Sys, State>(p, f.states, what));
            switch (src.choice(3)) {
            case 0:
                p.diagonalize();
                log += " diagonalized part";
                break;
            case 1:
                if (fresh) { // there is no change that would undo it
                    break;
                }
                p.canonicalize();
                p.diagonalize();
                if (b.back().rows() != b.back().cols()) {
                    log += " canonicalized part";
                    exact = false;
                }
                break;
            default:
                break;
            }
        }
        for (size_t i = 0; i < b.size(); ++i) {
            for (size_t k = 0; k < i; ++k) {
                Mat c = b[i].adjoint() * H * b[k];
                exact = exact && sm::maxabs(c) < 1e-12 * sm::maxabs(H);
            }
        }
    } else if (src.flip()) {
        for (auto &p : parts) {
            p.buildBasis();
        }
    }
    for (size_t i = parts.size(); i > 1; --i) {
        std::swap(parts[i - 1], parts[src.choice(i - 1)]);
    }
    for (size_t i = 1; i < parts.size(); ++i) {
        std::vector<State> before = parts[0].getStates();
        size_t cols = parts[0].getNumBasisvectors();
        if (src.chance(1, 6)) { // the vectors of the own system are not orthogonal to itself
            Sys again = parts[src.choice(i - 1)];
            if (src.flip()) {
                again = parts[0];
            }
            VP_CHECK(vp::throws([&] { parts[0].add(again); }), what << log << ": adding a part twice is not refused");
            VP_CHECK(parts[0].getStates() == before && parts[0].getNumBasisvectors() == cols, what << log << ": a refused addition changed the system");
            vp::label("refused: part added twice");
        }
        auto other = parts[i].getStates();
        size_t n = parts[i].getNumBasisvectors();
        try {
            parts[0].add(parts[i]);
        } catch (const std::exception &e) {
            VP_CHECK(false, what << log << ": adding a disjoint part fails: " << e.what());
        }
        VP_CHECK(parts[0].getNumBasisvectors() == cols + n && parts[i].getNumBasisvectors() == n && parts[i].getStates() == other, what << log << ": adding " << n << " to " << cols << " basis vectors gives " << parts[0].getNumBasisvectors());
        log += " added";
    }
    return exact;
}
template <typename V>
std::vector<std::set<V>> partition(vp::Src &src, const std::set<V> &all) {
    std::vector<std::set<V>> r(static_cast<size_t>(src.pick(2, 3)));
    for (V v : all) {
        r[src.choice(r.size() - 1)].insert(v);
    }
    r.erase(std::remove_if(r.begin(), r.end(), [](auto &x) { return x.empty(); }), r.end());
    if (r.size() < 2) {
        throw vp::Discard();
    }
    return r;
}
template <typename S>
bool union_one(vp::Src &src) {
    Quiet quiet;
    OneModel m;
    m.o = sm::gen_one(src, 20, sm::is_complex<S>, false);
    One &o = m.o;
    bool build = src.flip();
    if (build && src.chance(2, 3)) {
        o.e[0] = o.e[1] = o.b[0] = o.b[1] = 0;
    }
    m.fresh = src.flip();
    std::vector<SystemOne<S>> parts;
    std::string log;
    auto part = [&](const One &p, parity_t reflection, const std::set<float> &momenta) {
        OneModel x = m;
        x.o = p;
        x.reflection = reflection;
        x.momenta = momenta;
        parts.push_back(x.template make<S>());
    };
    const std::set<float> any{static_cast<float>(ARB)};
    std::set<float> js, ms;
    for (auto &s : o.states()) {
        js.insert(s.getJ());
        ms.insert(s.getM());
    }
    switch (src.choice(5)) {
    case 0:
        for (auto &x : partition(src, o.l)) {
            One p = o;
            p.l = x;
            part(p, NA, any);
        }
        log = " by l";
        break;
    case 1:
        for (auto &x : partition(src, o.n)) {
            One p = o;
            p.n = x;
            part(p, NA, any);
        }
        log = " by n";
        break;
    case 2:
        for (auto &x : partition(src, js)) {
            One p = o;
            p.j = x;
            part(p, NA, any);
        }
        log = " by j";
        break;
    case 3:
        for (auto &x : partition(src, ms)) {
            One p = o;
            p.m = x;
            part(p, NA, any);
        }
        log = " by m";
        break;
    case 4:
        for (auto &x : partition(src, ms)) {
            part(o, NA, x);
        }
        log = " by momentum";
        break;
    default:
        if (!sm::is_complex<S> && std::fmod(mx::spin(o.species), 1.) != 0) {
            throw vp::Discard();
        }
        part(o, EVEN, any);
        part(o, ODD, any);
        log = " by reflection";
    }
    vp::label("parts" + log);
    log += m.fresh ? "" : " with settings";
    std::string what = o.str() + (sm::is_complex<S> ? " complex" : " real");
    VP_NOTE(what << log);
    auto full = m.template make<S>();
    if (!m.fresh && src.chance(1, 6)) { // systems with different settings
        SystemOne<S> p = parts[0], q = parts[1];
        std::string how;
        switch (src.choice(4)) {
        case 0:
            how = "electric fields";
            q.setEfield({{o.e[0], o.e[1], o.e[2] + 0.5}});
            break;
        case 1:
            how = "magnetic fields";
            q.setBfield({{o.b[0], o.b[1], o.b[2] - 1}});
            break;
        case 2:
            how = "diamagnetism";
            q.enableDiamagnetism(!o.diamagnetism);
            break;
        case 3:
            how = "ion charges";
            q.setIonCharge(o.charge + 1);
            break;
        default:
            how = "ion distances";
            q.setRydIonDistance(5.25);
        }
        if (src.flip()) {
            p.buildHamiltonian();
            q.buildHamiltonian();
        }
        auto before = look<SystemOne<S>, StateOne>(p), other = look<SystemOne<S>, StateOne>(q);
        VP_CHECK(vp::throws([&] { p.add(q); }), what << log << ": adding a system with different " << how << " is not refused");
        same(look<SystemOne<S>, StateOne>(p), before, what + log + " (refused addition)");
        same(look<SystemOne<S>, StateOne>(q), other, what + log + " (refused to be added)");
        vp::label("refused: different " + how);
    }
    bool exact = combine<SystemOne<S>, StateOne>(src, parts, full, build, m.fresh, what, log);
    OneLive<S> x{m, parts[0], log, true, false, false};
    if (exact) {
        check(x);
        vp::label(build ? "combined after building" : "combined before building");
    } else {
        x.sys.setEfield(o.e);
        if (x.m.fresh) {
            x.m.o.b = x.m.o.e;
            x.m.o = o;
            x.m.o.settings(x.sys);
            x.m.fresh = false;
        }
        x.log += " E again";
    }
    long long steps = src.pick(1, 6);
    for (long long i = 0; i < steps; ++i) {
        long long k = src.choice(3);
        if (k == 0 && !x.m.fresh) {
            x.sys.diagonalize();
            x.log += " diagonalize";
        } else if (k == 1) {
            if (x.m.fresh) {
                x.m.o.settings(x.sys);
                x.m.fresh = false;
            }
            x.m.o.e = change(src, 40, sm::is_complex<S>);
            x.sys.setEfield(x.m.o.e);
            x.log += " E" + vp::show(x.m.o.e);
        } else if (k == 2) {
            if (x.m.fresh) {
                x.m.o.settings(x.sys);
                x.m.fresh = false;
            }
            x.m.o.b = change(src, 400, sm::is_complex<S>);
            x.sys.setBfield(x.m.o.b);
            x.log += " B" + vp::show(x.m.o.b);
        } else if (exact || i > 0) {
            x.mixed = true;
            check(x);
        }
    }
    x.mixed = true;
    VP_NOTE(x.log);
    check(x);
    return true;
}
template <typename S>
bool union_two(vp::Src &src) {
    Quiet quiet;
    Two t = sm::gen_two(src, 6, sm::is_complex<S>, true);
    TwoModel m;
    m.a = m.b = t.a;
    bool build = src.flip();
    long long kind = src.choice(4);
    auto calm = [&] {
        m.a.e = m.a.b = m.b.e = m.b.b = {{0, 0, 0}};
    };
    auto along_z = [&] {
        for (One *o : {&m.a, &m.b}) {
            o->e[0] = o->e[1] = o->b[0] = o->b[1] = 0;
        }
    };
    if (src.flip() || kind == 3) {
        calm();
    } else if (kind == 2) {
        along_z();
    } else if (kind == 1) {
        m.a.e = m.b.e = {{0, 0, 0}};
    }
    std::vector<TwoModel> models;
    std::string log;
    switch (kind) {
    case 0:
        log = " by permutation";
        for (parity_t p : {EVEN, ODD}) {
            models.push_back(m);
            models.back().permutation = p;
        }
        break;
    case 1:
        log = " by inversion";
        for (parity_t p : {EVEN, ODD}) {
            models.push_back(m);
            models.back().inversion = p;
        }
        break;
    case 2: {
        log = " by momentum";
        std::set<int> ms;
        for (auto &x : m.a.states()) {
            for (auto &y : m.b.states()) {
                ms.insert(static_cast<int>(std::lround(x.getM() + y.getM())));
            }
        }
        for (auto &x : partition(src, ms)) {
            models.push_back(m);
            models.back().momenta = x;
        }
        break;
    }
    case 3: {
        log = " by chosen products";
        size_t n = m.a.states().size();
        std::set<size_t> idx;
        for (size_t i = 0; i < n * n; ++i) {
            idx.insert(i);
        }
        for (auto &x : partition(src, idx)) {
            models.push_back(m);
            for (size_t i : x) {
                models.back().chosen.push_back({{i / n, i % n}});
            }
        }
        break;
    }
    default: {
        log = " by permutation and inversion";
        m.a.e = m.b.e = {{0, 0, 0}};
        for (parity_t p : {EVEN, ODD}) {
            for (parity_t q : {EVEN, ODD}) {
                models.push_back(m);
                models.back().permutation = p;
                models.back().inversion = q;
            }
        }
    }
    }
    vp::label("parts" + log);
    std::vector<SystemTwo<S>> parts;
    m.fresh = !build && src.flip();
    auto geometry = [&](TwoModel &x) { // one that keeps the symmetry, half of the time
        double R = sm::gen_distance(src, *m.a.n.rbegin()), th = src.sym(3.1), ph = sm::is_complex<S> && src.flip() ? src.sym(3.1) : 0;
        if (src.flip()) {
            th = 0;
        }
        x.d = {{R * std::sin(th) * std::cos(ph), R * std::sin(th) * std::sin(ph), R * std::cos(th)}};
        x.distance = R;
        x.order = static_cast<double>(th == 0 && src.flip() ? src.pick(3, 5) : 3);
        x.green = x.d[1] != 0 || (src.flip() && x.order < 5);
        x.surface = FAR;
        x.fresh = false;
    };
    if (!m.fresh) {
        geometry(m);
        if (build && (kind == 0 || kind == 1 || kind == 4) && src.flip()) {
            m.order = 3;
        }
    }
    std::string what = m.str() + (sm::is_complex<S> ? " complex" : " real");
    VP_NOTE(what << log);
    for (auto x : models) {
        TwoModel y = m;
        y.permutation = x.permutation;
        y.inversion = x.inversion;
        y.momenta = x.momenta;
        y.chosen = x.chosen;
        auto sys = y.template make<S>();
        bool empty = false; // there may be no antisymmetric pair, for instance
        try {
            sys.buildBasis();
        } catch (const std::exception &e) {
            empty = std::string(e.what()).find("contains no") != std::string::npos;
            VP_CHECK(empty, what << log << ": a part is refused: " << e.what());
        }
        if (!empty) {
            parts.push_back(y.template make<S>());
        }
    }
    if (parts.size() < 2) {
        throw vp::Discard();
    }
    auto full = m.template make<S>();
    if (!m.fresh && src.chance(1, 5)) { // systems with different settings
        SystemTwo<S> p = parts[0], q = parts[1];
        std::string how;
        switch (src.choice(3)) {
        case 0:
            how = "distances";
            q.setDistance(m.distance * 1.25);
            break;
        case 1:
            how = "angles";
            q.setAngle(0.3 + std::atan2(m.d[0], m.d[2]));
            break;
        case 2:
            how = "orders";
            q.setOrder(m.order == 3 ? 2 : 3);
            break;
        default:
            how = "surfaces";
            q.setSurfaceDistance(m.distance * 3);
        }
        std::vector<StateTwo> before = p.getStates(), other = q.getStates();
        size_t np = p.getNumBasisvectors(), nq = q.getNumBasisvectors();
        VP_CHECK(vp::throws([&] { p.add(q); }), what << log << ": adding a system with different " << how << " is not refused");
        VP_CHECK(p.getStates() == before && q.getStates() == other && p.getNumBasisvectors() == np && q.getNumBasisvectors() == nq, what << log << ": a refused addition changed a system");
        auto part = parts[0];
        same(look<SystemTwo<S>, StateTwo>(p), look<SystemTwo<S>, StateTwo>(part), what + log + " (refused addition)");
        vp::label("refused: different " + how);
    }
    bool exact = combine<SystemTwo<S>, StateTwo>(src, parts, full, build, m.fresh, what, log);
    TwoLive<S> x{m, parts[0], log, true, false, false};
    if (exact) {
        check(x);
        vp::label(build ? "combined after building" : "combined before building");
    } else {
        x.sys.setDistanceVector(m.d);
        x.log += " vector again";
    }
    long long steps = src.pick(1, 5);
    for (long long i = 0; i < steps; ++i) {
        switch (src.choice(2)) {
        case 0:
            if (!x.m.fresh) {
                x.sys.diagonalize();
                x.log += " diagonalize";
            }
            break;
        case 1:
            geometry(x.m);
            x.sys.setDistanceVector(x.m.d);
            x.sys.setOrder(x.m.order);
            x.sys.enableGreenTensor(x.m.green);
            x.log += " vector" + vp::show(x.m.d) + " order " + std::to_string(x.m.order) + (x.m.green ? " green" : "");
            break;
        default:
            x.mixed = true;
            check(x);
        }
    }
    x.mixed = true;
    VP_NOTE(x.log);
    check(x);
    return true;
}
} // namespace

VP_FACET("union of one-atom systems", 4000, 12000, "disjoint parts were combined") { vp::nontrivial(src.flip() ? union_one<cd>(src) : union_one<double>(src)); }
VP_FACET("union of pairs", 3000, 8000, "disjoint parts were combined") { vp::nontrivial(src.flip() ? union_two<cd>(src) : union_two<double>(src)); }
