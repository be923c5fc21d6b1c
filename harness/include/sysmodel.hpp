// Specifications of one-atom systems, their independent Hamiltonian, and small linear algebra helpers
// shared by the checks of SystemOne / SystemTwo.
#ifndef SYSMODEL_HPP
#define SYSMODEL_HPP
#include "EigenCompat.hpp"
#include "MatrixElementCache.hpp"
#include "SystemOne.hpp"
#include "SystemTwo.hpp"
#include "mxref.hpp"
#include "vp.hpp"

#include <Eigen/Dense>
#include <array>
#include <complex>

namespace sm {
using cd = std::complex<double>;
using Vec3 = std::array<double, 3>;
using Mat = Eigen::MatrixXcd;

inline MatrixElementCache &cache() { // one cache for all systems, as in a long session
    static MatrixElementCache c;
    return c;
}
template <typename S>
constexpr bool is_complex = !std::is_same<S, double>::value;

template <typename S>
inline Mat dense(const Eigen::SparseMatrix<S> &m) {
    return Eigen::MatrixX<S>(m).template cast<cd>();
}
inline double maxabs(const Mat &m) { return m.size() == 0 ? 0 : m.cwiseAbs().maxCoeff(); }
inline std::vector<double> spectrum(const Mat &m) {
    Eigen::SelfAdjointEigenSolver<Mat> es((m + m.adjoint()) / 2, Eigen::EigenvaluesOnly);
    return std::vector<double>(es.eigenvalues().data(), es.eigenvalues().data() + es.eigenvalues().size());
}
// largest difference of two sorted lists, infinity if they differ in length
inline double distance(std::vector<double> a, std::vector<double> b) {
    if (a.size() != b.size()) {
        return INFINITY;
    }
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    double d = 0;
    for (size_t i = 0; i < a.size(); ++i) {
        if (!(std::abs(a[i] - b[i]) <= d)) {
            d = std::abs(a[i] - b[i]);
        }
    }
    return d;
}
inline double angular_m(const mx::Ang &a, const mx::Ang &b, int k) {
    static std::map<std::array<int, 9>, double> memo;
    std::array<int, 9> key{{a.l, mx::d2(a.s), mx::d2(a.j), mx::d2(a.m), b.l, mx::d2(b.s), mx::d2(b.j), mx::d2(b.m), k}};
    auto it = memo.find(key);
    if (it == memo.end()) {
        it = memo.emplace(key, mx::angular(a, b, k)).first;
    }
    return it->second;
}
inline double moment_m(const mx::Ang &a, const mx::Ang &b) {
    static std::map<std::array<int, 8>, double> memo;
    std::array<int, 8> key{{a.l, mx::d2(a.s), mx::d2(a.j), mx::d2(a.m), b.l, mx::d2(b.s), mx::d2(b.j), mx::d2(b.m)}};
    auto it = memo.find(key);
    if (it == memo.end()) {
        it = memo.emplace(key, mx::moment(a, b, gL, gS)).first;
    }
    return it->second;
}
inline bool whittaker = false; // radial integrals with the analytic Coulomb functions
// <a|e r^kr C_ka,q|b>, q = m_a - m_b
inline double electric(const StateOne &a, const StateOne &b, int kr, int ka) {
    if (a.getSpecies() != b.getSpecies()) {
        return 0;
    }
    double x = angular_m(mx::ang(a), mx::ang(b), ka);
    return x == 0 ? 0 : elementary_charge * mx::radial(mx::level(a), mx::level(b), kr, whittaker) * x;
}
inline double magnetic(const StateOne &a, const StateOne &b) {
    double x = moment_m(mx::ang(a), mx::ang(b));
    return x == 0 ? 0 : -bohr_magneton * mx::radial(mx::level(a), mx::level(b), 0, whittaker) * x;
}
inline int dm(const StateOne &a, const StateOne &b) { return static_cast<int>(std::lround(a.getM() - b.getM())); }

// v = sum_q (-1)^q v_q T_-q: contravariant components v_q of a Cartesian vector
inline cd spherical(const Vec3 &v, int q) {
    switch (q) {
    case 0:
        return v[2];
    case 1:
        return -cd(v[0], v[1]) / std::sqrt(2.);
    case -1:
        return cd(v[0], -v[1]) / std::sqrt(2.);
    }
    return 0;
}
// C_2q of a direction times its squared length
inline cd quadrupole(const Vec3 &v, int q) {
    double x = v[0], y = v[1], z = v[2];
    switch (q) {
    case 0:
        return (2 * z * z - x * x - y * y) / 2;
    case 1:
        return -std::sqrt(1.5) * cd(x, y) * z;
    case -1:
        return std::sqrt(1.5) * cd(x, -y) * z;
    case 2:
        return std::sqrt(0.375) * cd(x, y) * cd(x, y);
    case -2:
        return std::sqrt(0.375) * cd(x, -y) * cd(x, -y);
    }
    return 0;
}
inline double sign(int q) { return q % 2 ? -1 : 1; }

struct One {
    std::string species = "Rb";
    std::set<int> n, l;
    std::set<float> j, m; // empty: unrestricted
    Vec3 e{{0, 0, 0}}, b{{0, 0, 0}};
    bool diamagnetism = true;
    int charge = 0;
    unsigned order = 0;
    double distance = std::numeric_limits<double>::max();

    template <typename S>
    void restrict(SystemOne<S> &sys) const {
        sys.restrictN(n);
        if (!l.empty()) {
            sys.restrictL(l);
        }
        if (!j.empty()) {
            sys.restrictJ(j);
        }
        if (!m.empty()) {
            sys.restrictM(m);
        }
    }
    template <typename S>
    void settings(SystemOne<S> &sys) const {
        sys.setEfield(e);
        sys.setBfield(b);
        sys.enableDiamagnetism(diamagnetism);
        sys.setIonCharge(charge);
        sys.setRydIonOrder(order);
        sys.setRydIonDistance(distance);
    }
    template <typename S>
    SystemOne<S> make() const {
        SystemOne<S> sys(species, cache());
        restrict(sys);
        settings(sys);
        return sys;
    }
    bool real() const { return e[1] == 0 && b[1] == 0; }
    std::vector<StateOne> states() const { // the states within the restrictions
        std::vector<StateOne> v;
        double s = mx::spin(species);
        for (int nn : n) {
            for (int ll = 0; ll < nn; ++ll) {
                if (!l.empty() && !l.count(ll)) {
                    continue;
                }
                for (double jj = std::abs(ll - s); jj <= ll + s; jj += 1) {
                    if (!j.empty() && !j.count(static_cast<float>(jj))) {
                        continue;
                    }
                    for (double mm = -jj; mm <= jj; mm += 1) {
                        if (m.empty() || m.count(static_cast<float>(mm))) {
                            v.emplace_back(species, nn, ll, static_cast<float>(jj), static_cast<float>(mm));
                        }
                    }
                }
            }
        }
        return v;
    }
    std::string str() const {
        std::ostringstream os;
        os.precision(12);
        os << species << " n" << vp::show(n) << " l" << vp::show(l) << " j" << vp::show(j) << " m" << vp::show(m) << " E" << vp::show(e) << " B" << vp::show(b) << (diamagnetism ? " dia" : "");
        if (charge != 0) {
            os << " ion " << charge << " order " << order << " distance " << distance;
        }
        return os.str();
    }
};
// Hamiltonian in the basis of the given states, built directly from the physics:
//   H = E_0 - d.E - mu.B + e^2/(8 m_e) (r x B)^2 - sum_k Z e k_C <e r^k C_k0> / R^(k+1)
// `mag` receives the sum of the magnitudes of all contributions to an entry (for tolerances).
inline Mat reference(const One &o, const std::vector<StateOne> &st, Eigen::MatrixXd *mag = nullptr) {
    Eigen::Index N = static_cast<Eigen::Index>(st.size());
    Mat h = Mat::Zero(N, N);
    Eigen::MatrixXd w = Eigen::MatrixXd::Zero(N, N);
    double b2 = o.b[0] * o.b[0] + o.b[1] * o.b[1] + o.b[2] * o.b[2];
    for (Eigen::Index i = 0; i < N; ++i) {
        const StateOne &a = st[i];
        if (a.isArtificial()) {
            continue;
        }
        for (Eigen::Index k = 0; k < N; ++k) {
            const StateOne &c = st[k];
            if (c.isArtificial() || a.getSpecies() != c.getSpecies()) {
                continue;
            }
            cd v = 0;
            double size = 0;
            auto add = [&](cd x) {
                v += x;
                size += std::abs(x);
            };
            if (i == k) {
                v += a.getEnergy(cache());
            }
            int q = dm(a, c);
            if (std::abs(q) <= 1) {
                // F.T = sum_q (-1)^q F_-q T_q
                add(-sign(q) * spherical(o.e, -q) * electric(a, c, 1, 1));
                add(-sign(q) * spherical(o.b, -q) * magnetic(a, c));
            }
            if (o.diamagnetism && b2 != 0 && std::abs(q) <= 2) {
                // (r x B)^2 = r^2 (2/3) (B^2 - sum_q (-1)^q [B^2 C_2,-q(B)] C_2q(r))
                double f = elementary_charge / (8 * electron_rest_mass) * 2. / 3.;
                if (q == 0) {
                    add(f * b2 * electric(a, c, 2, 0));
                }
                add(-f * sign(q) * quadrupole(o.b, -q) * electric(a, c, 2, 2));
            }
            if (o.charge != 0 && q == 0 && o.distance != std::numeric_limits<double>::max()) {
                for (unsigned kk = 1; kk <= o.order; ++kk) {
                    add(-coulombs_constant * elementary_charge * o.charge / std::pow(o.distance, kk + 1) * electric(a, c, static_cast<int>(kk), static_cast<int>(kk)));
                }
            }
            h(i, k) = v;
            w(i, k) = size;
        }
    }
    if (mag) {
        *mag = w;
    }
    return h;
}
// all levels of the specification are proper Rydberg levels
inline void require_rydberg(const One &o) {
    for (auto &s : o.states()) {
        if (!mx::rydberg(o.species, s.getN(), s.getL(), s.getJ())) {
            throw vp::Discard();
        }
    }
}
inline double field(vp::Src &src, double hi) {
    switch (src.choice(3)) {
    case 0:
        return 0;
    case 1:
        return src.sym(hi);
    case 2:
        return (src.flip() ? -1 : 1) * src.logreal(hi * 1e-7, hi);
    default:
        return static_cast<double>(src.pick(-5, 5)) * hi / 10;
    }
}
inline Vec3 field3(vp::Src &src, double hi, bool complex) {
    Vec3 f{{0, 0, 0}};
    f[2] = field(src, hi);
    f[0] = field(src, hi);
    if (complex) {
        f[1] = field(src, hi);
    }
    return f;
}
// at most `limit` states
inline One gen_one(vp::Src &src, int limit, bool complex, bool restrict_jm = true) {
    One o;
    o.species = src.of(mx::species());
    int n = static_cast<int>(src.pick(12, 40));
    o.n = {n};
    if (src.flip()) {
        o.n.insert(n + static_cast<int>(src.pick(1, 3)));
    }
    int l = static_cast<int>(src.pick(0, 3));
    o.l = {l};
    for (int x = 0; x <= 4; ++x) {
        if (src.chance(1, x == l + 1 || x == l - 1 ? 1 : 4)) {
            o.l.insert(x);
        }
    }
    double s = mx::spin(o.species);
    if (restrict_jm && src.chance(1, 4)) {
        for (double j = std::fmod(s, 1.); j <= 5; j += 1) {
            if (src.flip()) {
                o.j.insert(static_cast<float>(j));
            }
        }
    }
    if (restrict_jm && src.chance(1, 3)) {
        for (double m = -4 + std::fmod(s, 1.); m <= 4; m += 1) {
            if (src.flip()) {
                o.m.insert(static_cast<float>(m));
            }
        }
    }
    size_t count = o.states().size();
    while (static_cast<int>(count) > limit) { // drop the largest l, then n
        if (o.l.size() > 1) {
            o.l.erase(std::prev(o.l.end()));
        } else if (o.n.size() > 1) {
            o.n.erase(std::prev(o.n.end()));
        } else {
            throw vp::Discard();
        }
        count = o.states().size();
    }
    if (count == 0) {
        throw vp::Discard();
    }
    require_rydberg(o);
    // field strengths around the point where the mixing becomes strong
    double en = 1e9 / std::pow(n, 4.) * 5e-3 / n * 40; // ~ V/cm
    o.e = field3(src, std::min(en, 200.), complex);
    o.b = field3(src, 2000, complex);
    o.diamagnetism = !src.chance(1, 4);
    if (src.chance(1, 3)) {
        o.charge = static_cast<int>(src.pick(-3, 3));
        o.order = static_cast<unsigned>(src.pick(0, 4));
        o.distance = src.logreal(2e-4 * n * n, 20);
    }
    return o;
}
inline Eigen::Matrix3d rotation(double alpha, double beta, double gamma) { // active, z-y-z
    auto rz = [](double a) {
        Eigen::Matrix3d r;
        r << std::cos(a), -std::sin(a), 0, std::sin(a), std::cos(a), 0, 0, 0, 1;
        return r;
    };
    Eigen::Matrix3d ry;
    ry << std::cos(beta), 0, std::sin(beta), 0, 1, 0, -std::sin(beta), 0, std::cos(beta);
    return rz(alpha) * ry * rz(gamma);
}
inline Vec3 apply(const Eigen::Matrix3d &r, const Vec3 &v) {
    Eigen::Vector3d x(v[0], v[1], v[2]);
    x = r * x;
    return {{x[0], x[1], x[2]}};
}
inline Eigen::Matrix3d gen_rotation(vp::Src &src) {
    double a = src.choice(3) == 0 ? 0 : src.sym(3.2), b = src.choice(4) == 0 ? std::acos(-1) / 2 : src.sym(3.2), g = src.choice(3) == 0 ? 0 : src.sym(3.2);
    return rotation(a, b, g);
}

// ---------------------------------------------------------------------------------------------
// pairs of atoms
// ---------------------------------------------------------------------------------------------
struct Quiet { // the code warns on stderr about small distances, incomplete rotations, ...
    std::streambuf *old;
    Quiet() : old(std::cerr.rdbuf(nullptr)) {}
    ~Quiet() { std::cerr.rdbuf(old); std::cerr.clear(); }
};
struct Two {
    One a, b;
    Vec3 r{{0, 0, 0}}; // from the first to the second atom, um; zero: no interaction
    unsigned order = 3;
    bool green = false;
    double surface = std::numeric_limits<double>::max(); // distance of the centre to the plate below the atoms

    template <typename S>
    void geometry(SystemTwo<S> &sys) const {
        sys.setOrder(order);
        if (green) {
            sys.enableGreenTensor(true);
        }
        if (far()) {
            return;
        }
        sys.setDistanceVector(r);
        sys.setSurfaceDistance(surface);
    }
    template <typename S>
    SystemTwo<S> make() const {
        Quiet q;
        SystemTwo<S> sys(a.make<S>(), b.make<S>(), cache());
        geometry(sys);
        return sys;
    }
    bool far() const { return r == Vec3{{0, 0, 0}}; }
    bool real() const { return a.real() && b.real() && r[1] == 0; }
    std::string str() const {
        std::ostringstream os;
        os.precision(12);
        os << "[" << a.str() << " | " << b.str() << " | r" << vp::show(r) << " order " << order << (green ? " green" : "");
        if (surface != std::numeric_limits<double>::max()) {
            os << " surface " << surface;
        }
        os << "]";
        return os.str();
    }
};
inline double fact(int n) { return static_cast<double>(mx::fact(n)); }
// conj(C_KQ) of a direction
inline cd harmonic(const Vec3 &v, int K, int Q) {
    double rho = std::hypot(v[0], v[1]), th = std::atan2(rho, v[2]), ph = rho == 0 ? 0 : std::atan2(v[1], v[0]);
    int A = std::abs(Q);
    double y = std::sph_legendre(static_cast<unsigned>(K), static_cast<unsigned>(A), th) * std::sqrt(4 * std::acos(-1) / (2 * K + 1));
    // sph_legendre includes the Condon-Shortley phase: Y_l^m = sph_legendre(l,m) e^{i m phi}
    cd c = y * std::polar(1., A * ph);
    if (Q < 0) {
        c = sign(A) * std::conj(c);
    }
    return std::conj(c);
}
// multipole matrices of the one-atom states occurring in a list of pair states
struct Table {
    std::map<StateOne, int> index;
    std::vector<StateOne> list;
    std::vector<Eigen::MatrixXd> t; // k = 1, 2, ...
    std::vector<int> at;            // index of the one-atom state of each pair state
    Table(const std::vector<StateTwo> &st, int which, int kmax) {
        for (auto &s : st) {
            StateOne o = which == 0 ? s.getFirstState() : s.getSecondState();
            auto ins = index.emplace(o, static_cast<int>(list.size()));
            if (ins.second) {
                list.push_back(o);
            }
            at.push_back(ins.first->second);
        }
        auto n = static_cast<Eigen::Index>(list.size());
        for (int k = 1; k <= kmax; ++k) {
            Eigen::MatrixXd m(n, n);
            for (Eigen::Index i = 0; i < n; ++i) {
                for (Eigen::Index j = 0; j < n; ++j) {
                    m(i, j) = list[i].isArtificial() || list[j].isArtificial() ? 0 : electric(list[i], list[j], k, k);
                }
            }
            t.push_back(m);
        }
    }
};
// Coulomb energy of two charge distributions around points with separation r (first to second):
//   k_C sum (-1)^k2 sqrt((K+Q)!(K-Q)!/((k1+q1)!(k1-q1)!(k2+q2)!(k2-q2)!)) conj(C_KQ(r)) T1_k1q1 T2_k2q2 / r^(K+1)
// with K = k1+k2, Q = q1+q2; `image`: the second distribution is replaced by its mirror image in a
// perfectly conducting plane perpendicular to z, with r pointing to the image.
inline void multipoles(const std::vector<StateTwo> &st, const Vec3 &r, unsigned order, bool image, Mat &h, Eigen::MatrixXd &w) {
    int kmax = static_cast<int>(order) - 2;
    if (kmax < 1) {
        return;
    }
    Table a(st, 0, kmax), b(st, 1, kmax);
    double R = std::sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]);
    std::map<std::pair<int, int>, cd> harm;
    for (int K = 2; K < static_cast<int>(order); ++K) {
        for (int Q = -K; Q <= K; ++Q) {
            harm[{K, Q}] = harmonic(r, K, Q);
        }
    }
    auto N = static_cast<Eigen::Index>(st.size());
    for (Eigen::Index i = 0; i < N; ++i) {
        if (st[i].isArtificial(0) || st[i].isArtificial(1)) {
            continue;
        }
        for (Eigen::Index j = 0; j < N; ++j) {
            if (st[j].isArtificial(0) || st[j].isArtificial(1)) {
                continue;
            }
            int q1 = dm(a.list[a.at[i]], a.list[a.at[j]]), q2 = dm(b.list[b.at[i]], b.list[b.at[j]]);
            for (int k1 = std::max(1, std::abs(q1)); k1 <= kmax; ++k1) {
                double x = a.t[k1 - 1](a.at[i], a.at[j]);
                if (x == 0) {
                    continue;
                }
                for (int k2 = std::max(1, std::abs(q2)); k1 + k2 < static_cast<int>(order); ++k2) {
                    double y = b.t[k2 - 1](b.at[i], b.at[j]);
                    if (y == 0) {
                        continue;
                    }
                    int K = k1 + k2, Q = q1 + q2;
                    double c = sign(k2) * std::sqrt(fact(K + Q) * fact(K - Q) / (fact(k1 + q1) * fact(k1 - q1) * fact(k2 + q2) * fact(k2 - q2)));
                    if (image) {
                        c *= -sign(k2 + q2);
                    }
                    double f = coulombs_constant * c * x * y / std::pow(R, K + 1);
                    cd v = f * harm[{K, Q}];
                    h(i, j) += v;
                    w(i, j) += std::abs(f);
                }
            }
        }
    }
}
// interaction in the basis of the given pair states
inline Mat interaction(const Two &t, const std::vector<StateTwo> &st, Eigen::MatrixXd *mag = nullptr) {
    auto N = static_cast<Eigen::Index>(st.size());
    Mat h = Mat::Zero(N, N);
    Eigen::MatrixXd w = Eigen::MatrixXd::Zero(N, N);
    if (!t.far()) {
        multipoles(st, t.r, t.order, false, h, w);
        if (t.surface != std::numeric_limits<double>::max()) {
            multipoles(st, {{t.r[0], 0, -2 * t.surface}}, t.order, true, h, w);
        }
    }
    if (mag) {
        *mag = w;
    }
    return h;
}
// h_a x 1 + 1 x h_b in the basis of the given pair states, from one-atom Hamiltonians with their states
inline Mat noninteracting(const std::vector<StateTwo> &st, const std::vector<StateOne> &sa, const Mat &ha, const std::vector<StateOne> &sb, const Mat &hb) {
    std::map<StateOne, Eigen::Index> ia, ib;
    for (size_t i = 0; i < sa.size(); ++i) {
        ia[sa[i]] = static_cast<Eigen::Index>(i);
    }
    for (size_t i = 0; i < sb.size(); ++i) {
        ib[sb[i]] = static_cast<Eigen::Index>(i);
    }
    auto N = static_cast<Eigen::Index>(st.size());
    std::vector<Eigen::Index> a(st.size()), b(st.size());
    for (Eigen::Index i = 0; i < N; ++i) {
        a[i] = ia.at(st[i].getFirstState());
        b[i] = ib.at(st[i].getSecondState());
    }
    Mat h = Mat::Zero(N, N);
    for (Eigen::Index i = 0; i < N; ++i) {
        for (Eigen::Index j = 0; j < N; ++j) {
            if (b[i] == b[j]) {
                h(i, j) += ha(a[i], a[j]);
            }
            if (a[i] == a[j]) {
                h(i, j) += hb(b[i], b[j]);
            }
        }
    }
    return h;
}
// a distance vector at which the interaction is noticeable
inline double gen_distance(vp::Src &src, int n) { return src.logreal(0.5, 12) * n * n / 900; }
inline Two gen_two(vp::Src &src, int limit, bool complex, bool same = false) {
    Two t;
    t.a = gen_one(src, limit, complex, true);
    if (same || src.chance(1, 3)) {
        t.b = t.a;
    } else {
        t.b = gen_one(src, limit, complex, true);
    }
    t.a.charge = t.b.charge = 0;
    return t;
}
inline int largest_n(const Two &t) { return std::max(*t.a.n.rbegin(), *t.b.n.rbegin()); }
inline void gen_geometry(vp::Src &src, Two &t, bool complex) {
    double R = gen_distance(src, largest_n(t));
    switch (src.choice(3)) {
    case 0: // along z
        t.r = {{0, 0, src.chance(1, 3) ? -R : R}};
        t.order = static_cast<unsigned>(src.pick(2, 6));
        break;
    case 1: { // dipole-dipole interaction at an angle
        double th = src.chance(1, 3) ? std::acos(-1) / 2 : src.sym(3.2);
        t.r = {{R * std::sin(th), 0, R * std::cos(th)}};
        t.order = src.chance(1, 12) ? 2 : 3;
        break;
    }
    default: { // tensor formulation
        double th = src.chance(1, 3) ? 0 : src.sym(3.2), ph = complex && src.flip() ? src.sym(3.2) : 0;
        t.r = {{R * std::sin(th) * std::cos(ph), R * std::sin(th) * std::sin(ph), R * std::cos(th)}};
        t.order = static_cast<unsigned>(src.pick(3, 4));
        t.green = true;
        if (t.r[1] == 0 && src.chance(1, 2)) {
            t.surface = std::abs(t.r[2]) / 2 + R * src.logreal(0.05, 4);
        }
    }
    }
}
} // namespace sm
#endif
