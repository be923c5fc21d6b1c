// C21: perturbative C3/C6 coefficients against explicit sums and diagonalised pair Hamiltonians.
#include "sysmodel.hpp"

#include "PerturbativeInteraction.hpp"

namespace {
using sm::cd;
using sm::Mat;

const double pi = std::acos(-1);

StateOne part(const StateTwo &s, int which) { return which == 0 ? s.getFirstState() : s.getSecondState(); }

// cartesian components of <a|d|b>
std::array<cd, 3> dipole(const StateOne &a, const StateOne &b) {
    int q = sm::dm(a, b);
    if (std::abs(q) > 1) {
        return {{0, 0, 0}};
    }
    double d = sm::electric(a, b, 1, 1);
    double r = d / std::sqrt(2.);
    if (q == 0) {
        return {{0, 0, d}};
    }
    // d_{+1} = -(x + i y)/sqrt(2), d_{-1} = (x - i y)/sqrt(2): x = (d_- - d_+)/sqrt(2), y = i (d_- + d_+)/sqrt(2)
    return {{q > 0 ? -r : r, cd(0, r), 0}};
}
// R^3 times the dipole-dipole energy for an axis in the xz plane
double coupling(const StateTwo &a, const StateTwo &b, double angle, double *bound = nullptr) {
    auto x = dipole(part(a, 0), part(b, 0)), y = dipole(part(a, 1), part(b, 1));
    double n[3] = {std::sin(angle), 0, std::cos(angle)};
    cd dot = 0, nx = 0, ny = 0;
    for (int k = 0; k < 3; ++k) {
        dot += x[k] * y[k];
        nx += n[k] * x[k];
        ny += n[k] * y[k];
    }
    if (bound) {
        *bound = coulombs_constant * std::sqrt((std::norm(x[0]) + std::norm(x[1]) + std::norm(x[2])) * (std::norm(y[0]) + std::norm(y[1]) + std::norm(y[2])));
    }
    cd v = coulombs_constant * (dot - 3. * nx * ny);
    return v.real();
}
// all states of the species dipole-coupled to one of the given ones, with principal quantum numbers in a range
std::vector<StateOne> around(const std::vector<StateOne> &st, int lo, int hi) {
    std::set<StateOne> out;
    for (auto &s : st) {
        double spin = mx::spin(s.getSpecies());
        for (int n = std::max(1, lo); n <= hi; ++n) {
            for (int l : {s.getL() - 1, s.getL() + 1}) {
                if (l < 0 || l >= n) {
                    continue;
                }
                for (double j = std::abs(l - spin); j <= l + spin; j += 1) {
                    if (std::abs(j - s.getJ()) > 1) {
                        continue;
                    }
                    if (!mx::rydberg(s.getSpecies(), n, l, j)) {
                        throw vp::Discard();
                    }
                    for (double m = -j; m <= j; m += 1) {
                        if (std::abs(m - s.getM()) <= 1) {
                            out.insert(StateOne(s.getSpecies(), n, l, static_cast<float>(j), static_cast<float>(m)));
                        }
                    }
                }
            }
        }
    }
    return {out.begin(), out.end()};
}
struct Sum {
    double value = 0, weight = 0; // weight: sum of the absolute values, with the loss by cancellation in the energies
    int terms = 0;
};
// sum over virtual states of V(row,virtual) V(virtual,column) (1/dE_row + 1/dE_col)/2
Sum second_order(const StateTwo &row, const StateTwo &col, int dn, double angle, const std::set<StateTwo> &excluded) {
    Sum s;
    std::vector<StateOne> v[2];
    for (int k = 0; k < 2; ++k) {
        auto a = part(row, k), b = part(col, k);
        if (a.getSpecies() != b.getSpecies()) {
            return s;
        }
        v[k] = around({a, b}, std::min(a.getN(), b.getN()) - dn, std::max(a.getN(), b.getN()) + dn);
    }
    double er = row.getEnergy(sm::cache()), ec = col.getEnergy(sm::cache());
    for (auto &x : v[0]) {
        for (auto &y : v[1]) {
            StateTwo w(x, y);
            double as = 0, bs = 0, a = coupling(row, w, angle, &as), b = coupling(w, col, angle, &bs);
            if (as < 1e-14 || bs < 1e-14 || excluded.count(w)) {
                continue; // allowed couplings exceed 1e-10 GHz um^3
            }
            double e = w.getEnergy(sm::cache()), dr = er - e, dc = ec - e;
            if (std::abs(dr) < 1e-6 || std::abs(dc) < 1e-6) {
                throw vp::Discard(); // resonant: no perturbation theory
            }
            double t = a * b * 0.5 * (1 / dr + 1 / dc);
            s.value += t;
            // t itself can cancel between the two denominators; energies are exact to 1e-15
            s.weight += (std::abs(a) + 1e-7 * as) * (std::abs(b) + 1e-7 * bs) * (0.5 * (std::abs(1 / dr) + std::abs(1 / dc)) + 1e-6 * std::abs(er) * (1 / (dr * dr) + 1 / (dc * dc)));
            s.terms += a != 0 && b != 0;
        }
    }
    return s;
}
double gen_angle(vp::Src &src) {
    switch (src.choice(5)) {
    case 0:
        return 0;
    case 5:
        return src.logreal(1e-4, 0.1) * (src.flip() ? 1 : -1);
    case 1:
        return src.sym(pi);
    case 2:
        return pi / 2 * static_cast<double>(src.pick(-4, 4));
    case 3:
        return pi / 4 * static_cast<double>(src.pick(-8, 8));
    default:
        return std::acos(1 / std::sqrt(3.)) * (src.flip() ? 1 : -1);
    }
}
std::string gen_species(vp::Src &src) {
    auto &sp = mx::species();
    return sp[src.choice(sp.size() - 1)];
}
// a one-atom state near another one, often of the same multiplet or two units of l away
StateOne neighbour(vp::Src &src, const StateOne &a, int lmax) {
    double s = mx::spin(a.getSpecies());
    for (int tries = 0; tries < 30; ++tries) {
        int l = a.getL() + (src.chance(1, 2) ? 0 : 2 * static_cast<int>(src.pick(-1, 1)) + (src.chance(1, 6) ? 1 : 0));
        if (l < 0 || l > lmax) {
            continue;
        }
        double jlo = std::abs(l - s);
        double j = jlo + static_cast<double>(src.pick(0, std::lround(l + s - jlo)));
        double m = -j + static_cast<double>(src.pick(0, std::lround(2 * j)));
        int n = a.getN() + (src.chance(1, 2) ? 0 : static_cast<int>(src.pick(-2, 2)));
        if (n > 1 && n > l && mx::rydberg(a.getSpecies(), n, l, j)) {
            return StateOne(a.getSpecies(), n, l, static_cast<float>(j), static_cast<float>(m));
        }
    }
    throw vp::Discard();
}
StateOne first(vp::Src &src, bool low) {
    std::string sp = gen_species(src);
    if (low && src.chance(1, 4)) { // few radial nodes: the ranges of l are limited by n
        int n = static_cast<int>(src.pick(7, 12)), l = n - 1 - static_cast<int>(src.pick(0, 2));
        double s = mx::spin(sp), jlo = l - s, j = jlo + static_cast<double>(src.pick(0, std::lround(2 * s)));
        if (!mx::rydberg(sp, n, l, j)) {
            throw vp::Discard();
        }
        double m = -j + static_cast<double>(src.pick(0, std::lround(2 * j)));
        vp::label("l close to n");
        return StateOne(sp, n, l, static_cast<float>(j), static_cast<float>(m));
    }
    return mx::gen_state(src, sp, 10, src.chance(1, 4) ? 40 : 16, src.flip() ? 2 : 5);
}
std::vector<StateTwo> gen_set(vp::Src &src, size_t max, bool low) {
    StateOne a = first(src, low);
    StateOne b = src.flip() ? first(src, low) : neighbour(src, a, a.getN() - 1);
    std::set<StateTwo> seen;
    std::vector<StateTwo> out;
    auto add = [&](const StateOne &x, const StateOne &y) {
        StateTwo s(x, y);
        if (seen.insert(s).second) {
            out.push_back(s);
        }
    };
    add(a, b);
    size_t n = src.pick(1, static_cast<int>(max));
    for (size_t i = 1; i < n; ++i) {
        auto &old = out[src.choice(out.size() - 1)];
        StateOne x = part(old, 0), y = part(old, 1);
        switch (src.choice(4)) {
        case 0:
            add(y, x);
            break;
        case 1: // a pair coupled in first order
            add(mx::gen_partner(src, x, 1, 2, x.getN() + 1), mx::gen_partner(src, y, 1, 2, y.getN() + 1));
            break;
        case 2: // something else
            add(first(src, low), first(src, low));
            break;
        default:
            add(src.chance(1, 4) ? x : neighbour(src, x, x.getN() - 1), src.chance(1, 4) ? y : neighbour(src, y, y.getN() - 1));
        }
    }
    return out;
}
std::string str(const std::vector<StateTwo> &st) {
    std::ostringstream os;
    for (auto &s : st) {
        os << s << " ";
    }
    return os.str();
}
PerturbativeInteraction make(vp::Src &src, double angle) {
    if (angle == 0 && src.flip()) {
        return PerturbativeInteraction(sm::cache());
    }
    return PerturbativeInteraction(angle, sm::cache());
}

VP_FACET("C6 against the explicit sum over all intermediate states", 1200, 20000, "at least one non-vanishing off-diagonal element or an angle off the axis") {
    double angle = gen_angle(src);
    auto st = gen_set(src, 4, true);
    int dn = static_cast<int>(src.pick(0, 3));
    VP_NOTE("angle " << angle << " dn " << dn << " states " << str(st));
    auto p = make(src, angle);
    std::set<StateTwo> all(st.begin(), st.end());
    std::vector<std::vector<Sum>> want(st.size(), std::vector<Sum>(st.size()));
    bool off = false;
    int terms = 0;
    for (size_t i = 0; i < st.size(); ++i) {
        for (size_t k = i; k < st.size(); ++k) {
            want[i][k] = want[k][i] = second_order(st[i], st[k], dn, angle, all);
            off |= i != k && want[i][k].terms > 0;
            terms += want[i][k].terms;
        }
    }
    auto got = p.getC6(st, dn);
    VP_CHECK(got.rows() == static_cast<Eigen::Index>(st.size()) && got.cols() == got.rows(), "angle " << angle << " dn " << dn << " " << str(st) << ": matrix " << got.rows() << "x" << got.cols());
    for (size_t i = 0; i < st.size(); ++i) {
        for (size_t k = 0; k < st.size(); ++k) {
            double g = got(i, k);
            VP_CHECK(std::abs(g - want[i][k].value) <= 1e-6 * want[i][k].weight, "angle " << angle << " dn " << dn << " " << str(st) << ": C6(" << i << "," << k << ") = " << g << ", the sum over " << want[i][k].terms << " intermediate states is " << want[i][k].value << " (absolute values " << want[i][k].weight << ")");
        }
    }
    auto &one = st[src.choice(st.size() - 1)];
    Sum w = second_order(one, one, dn, angle, {one});
    double g = p.getC6(one, dn);
    VP_CHECK(std::abs(g - w.value) <= 1e-6 * w.weight, "angle " << angle << " dn " << dn << " " << one << ": C6 = " << g << ", the sum over " << w.terms << " intermediate states is " << w.value);
    auto m = p.getC6(std::vector<StateTwo>{one}, dn);
    VP_CHECK(m.rows() == 1 && std::abs(g - m(0, 0)) <= 1e-6 * w.weight, "angle " << angle << " dn " << dn << " " << one << ": C6 = " << g << " as a number and " << m << " as a matrix");
    if (off || (angle != 0 && terms > 0)) {
        vp::nontrivial();
    }
    vp::label(off ? "off-diagonal" : "diagonal only");
    vp::label("spin " + std::to_string(mx::spin(part(st[0], 0).getSpecies())));
}

VP_FACET("C3 and energies against the dipole-dipole energy", 3000, 60000, "at least one non-vanishing element") {
    double angle = gen_angle(src);
    auto st = gen_set(src, 6, true);
    VP_NOTE("angle " << angle << " states " << str(st));
    auto p = make(src, angle);
    auto got = p.getC3(st);
    auto e = p.getEnergy(st);
    auto n = static_cast<Eigen::Index>(st.size());
    VP_CHECK(got.rows() == n && got.cols() == n && e.rows() == n && e.cols() == n, str(st) << ": size");
    for (Eigen::Index i = 0; i < n; ++i) {
        for (Eigen::Index k = 0; k < n; ++k) {
            double w = 0, scale = 0;
            if (part(st[i], 0).getSpecies() == part(st[k], 0).getSpecies() && part(st[i], 1).getSpecies() == part(st[k], 1).getSpecies()) {
                w = coupling(st[i], st[k], angle);
                scale = coulombs_constant * std::abs(sm::electric(part(st[i], 0), part(st[k], 0), 1, 1) * sm::electric(part(st[i], 1), part(st[k], 1), 1, 1));
            }
            if (scale > 0) { // angular factors that vanish are known to rounding errors only
                scale += 1e-7 * coulombs_constant * elementary_charge * elementary_charge * std::abs(mx::radial(mx::level(part(st[i], 0)), mx::level(part(st[k], 0)), 1) * mx::radial(mx::level(part(st[i], 1)), mx::level(part(st[k], 1)), 1));
            }
            VP_CHECK(std::abs(got(i, k) - w) <= 1e-6 * scale, "angle " << angle << " " << str(st) << ": C3(" << i << "," << k << ") = " << got(i, k) << " instead of " << w);
            if (i != k && w != 0) {
                vp::nontrivial();
                vp::label("dm " + std::to_string(sm::dm(part(st[i], 0), part(st[k], 0))) + " " + std::to_string(sm::dm(part(st[i], 1), part(st[k], 1))));
            }
            double we = i == k ? st[i].getFirstState().getEnergy(sm::cache()) + st[i].getSecondState().getEnergy(sm::cache()) : 0;
            VP_CHECK(std::abs(e(i, k) - we) <= 1e-12 * std::abs(we), str(st) << ": energy(" << i << "," << k << ") = " << e(i, k) << " instead of " << we);
            if (i == k) {
                double golden = 0;
                for (int x = 0; x < 2; ++x) {
                    auto o = part(st[i], x);
                    golden += qdm::golden().level(o.getSpecies(), o.getN(), o.getL(), o.getJ())->energy;
                }
                VP_CHECK(std::abs(e(i, i) - golden) <= 1e-9 * std::abs(golden), str(st) << ": energy(" << i << ") = " << e(i, i) << " instead of " << golden);
            }
        }
    }
}

// d^j(angle) for all m, from the small rotations' generator
Eigen::MatrixXd rotation(double j, double angle) {
    int d = static_cast<int>(std::lround(2 * j)) + 1;
    Eigen::MatrixXd jy = Eigen::MatrixXd::Zero(d, d); // i J_y
    for (int k = 0; k + 1 < d; ++k) {                 // states ordered by m from -j to j
        double m = -j + k, x = 0.5 * std::sqrt((j - m) * (j + m + 1));
        jy(k + 1, k) = x; // <m+1|J_+|m>/2
        jy(k, k + 1) = -x;
    }
    // exp(-angle i J_y) by diagonalising the hermitian matrix J_y = -i (i J_y)
    Eigen::MatrixXcd h = cd(0, -1) * jy.cast<cd>();
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXcd> es(h);
    Eigen::MatrixXcd u = es.eigenvectors() * (cd(0, -1) * angle * es.eigenvalues().cast<cd>()).array().exp().matrix().asDiagonal() * es.eigenvectors().adjoint();
    return u.real();
}
struct Manifold {
    std::vector<StateTwo> st;
    std::vector<std::pair<double, double>> blocks; // (j1,j2), states ordered by m1 then m2
    Eigen::MatrixXd rotate(double angle) const {
        auto n = static_cast<Eigen::Index>(st.size());
        Eigen::MatrixXd u = Eigen::MatrixXd::Zero(n, n);
        Eigen::Index at = 0;
        for (auto &b : blocks) {
            auto x = rotation(b.first, angle), y = rotation(b.second, angle);
            for (Eigen::Index i = 0; i < x.rows(); ++i) {
                for (Eigen::Index k = 0; k < x.cols(); ++k) {
                    u.block(at + i * y.rows(), at + k * y.cols(), y.rows(), y.cols()) = x(i, k) * y;
                }
            }
            at += x.rows() * y.rows();
        }
        return u;
    }
    void add(const StateOne &a, const StateOne &b) {
        blocks.emplace_back(a.getJ(), b.getJ());
        for (double m = -a.getJ(); m <= a.getJ(); m += 1) {
            for (double k = -b.getJ(); k <= b.getJ(); k += 1) {
                st.push_back(StateTwo(StateOne(a.getSpecies(), a.getN(), a.getL(), a.getJ(), static_cast<float>(m)), StateOne(b.getSpecies(), b.getN(), b.getL(), b.getJ(), static_cast<float>(k))));
            }
        }
    }
};
bool same_levels(const StateOne &a, const StateOne &b) { return a.getSpecies() == b.getSpecies() && a.getN() == b.getN() && a.getL() == b.getL() && a.getJ() == b.getJ(); }

VP_FACET("coefficients of complete multiplets rotate with the axis", 150, 3000, "non-vanishing coefficients and an angle off the axis") {
    double angle = src.flip() ? src.sym(pi) : gen_angle(src);
    std::string sp = gen_species(src);
    StateOne a = mx::gen_state(src, sp, 15, 30, 2);
    StateOne b = src.flip() ? mx::gen_state(src, src.flip() ? sp : gen_species(src), 15, 30, 2) : a;
    Manifold m;
    m.add(a, b);
    if (src.flip()) {
        StateOne c = src.flip() ? b : mx::gen_partner(src, a, 1, 1, 3), d = src.flip() ? a : mx::gen_partner(src, b, 1, 1, 3);
        if (!(same_levels(a, c) && same_levels(b, d))) {
            m.add(c, d);
        }
    }
    if (m.st.size() > 70) {
        throw vp::Discard();
    }
    int dn = static_cast<int>(src.pick(0, 1));
    VP_NOTE("angle " << angle << " dn " << dn << " " << m.blocks.size() << " blocks, first " << m.st.front() << " last " << m.st.back());
    PerturbativeInteraction along(sm::cache()), tilted(angle, sm::cache());
    Eigen::MatrixXd c3 = along.getC3(m.st), t3 = tilted.getC3(m.st), c6 = along.getC6(m.st, dn), t6 = tilted.getC6(m.st, dn);
    if (!c6.allFinite() || !t6.allFinite()) {
        throw vp::Discard(); // resonance
    }
    Eigen::MatrixXd u = m.rotate(angle);
    double s3 = sm::maxabs(c3.cast<cd>()), s6 = sm::maxabs(c6.cast<cd>());
    double r3 = sm::maxabs((t3 - u * c3 * u.transpose()).cast<cd>()), r6 = sm::maxabs((t6 - u * c6 * u.transpose()).cast<cd>());
    VP_CHECK(r3 <= 1e-9 * s3, "angle " << angle << " " << m.st.front() << " ... " << m.st.back() << ": C3 deviates from the rotated one by " << r3 << " of " << s3);
    VP_CHECK(r6 <= 1e-6 * s6, "angle " << angle << " dn " << dn << " " << m.st.front() << " ... " << m.st.back() << ": C6 deviates from the rotated one by " << r6 << " of " << s6);
    if (s6 > 0 && std::abs(std::sin(angle)) > 0.1) {
        vp::nontrivial();
    }
    vp::label(s3 > 0 ? "C3" : "no C3");
}

VP_FACET("level shifts of diagonalised pairs follow C6/R^6", 40, 600, "an interaction larger than the numerical resolution") {
    sm::Quiet quiet;
    // the complete multiplet of a pair of levels; the intermediate states of the sum are those of the basis
    int dn = src.chance(1, 3) ? 1 : 0;
    double angle = src.flip() ? 0 : src.sym(pi);
    bool same = src.flip();
    sm::Two two;
    StateOne lv[2];
    for (int k = 0; k < 2; ++k) {
        sm::One &one = k == 0 ? two.a : two.b;
        if (k == 1 && same) {
            two.b = two.a;
            lv[1] = lv[0];
            break;
        }
        std::string sp = gen_species(src);
        double s = mx::spin(sp);
        int l = static_cast<int>(src.pick(0, 1));
        double jlo = std::abs(l - s), j = jlo + static_cast<double>(src.pick(0, std::lround(l + s - jlo)));
        int n = static_cast<int>(src.pick(18, 35));
        lv[k] = StateOne(sp, n, l, static_cast<float>(j), static_cast<float>(j));
        one.species = sp;
        one.l = {l, l + 1};
        if (l > 0) {
            one.l.insert(l - 1);
        }
        for (int x = n - dn; x <= n + dn; ++x) {
            one.n.insert(x);
            for (int y : one.l) {
                for (double z = std::abs(y - s); z <= y + s; z += 1) {
                    if (!mx::rydberg(sp, x, y, z)) {
                        throw vp::Discard();
                    }
                }
            }
        }
        for (double x = std::max(std::fmod(s, 1.), j - 1); x <= j + 1; x += 1) {
            one.j.insert(static_cast<float>(x));
        }
    }
    StateOne &a = lv[0], &b = lv[1];
    if (!same && a.getSpecies() == b.getSpecies() && std::abs(a.getN() - b.getN()) <= dn) {
        throw vp::Discard(); // the exchanged pair is in the basis, the range of n differs for the exchange
    }
    Manifold m;
    m.add(a, b);
    VP_NOTE("angle " << angle << " dn " << dn << " " << a << " " << b);
    std::set<StateTwo> all(m.st.begin(), m.st.end());
    // the range of distances for which the expansion is good to about 1e-3
    double e0 = m.st[0].getEnergy(sm::cache()), ratio = 0, gap = 1e9;
    auto sa = two.a.states(), sb = two.b.states();
    if (sa.size() * sb.size() > 1500) {
        throw vp::Discard();
    }
    for (auto &t : m.st) {
        for (auto &x : sa) {
            for (auto &y : sb) {
                StateTwo w(x, y);
                if (all.count(w)) {
                    continue;
                }
                double v = std::abs(coupling(t, w, angle)), de = std::abs(e0 - w.getEnergy(sm::cache()));
                gap = std::min(gap, de);
                if (de < 1e-3) {
                    throw vp::Discard();
                }
                if (v > 0) {
                    ratio = std::max(ratio, v / de);
                }
            }
        }
    }
    if (!(ratio > 0)) {
        throw vp::Discard();
    }
    PerturbativeInteraction p(angle, sm::cache());
    Eigen::MatrixXd c6 = p.getC6(m.st, dn), c3 = p.getC3(m.st);
    // ... and shifts much smaller than the distance to other levels, which are coupled in second order
    double R = std::cbrt(ratio / 1e-3); // first-order admixture 1e-3 (other pairs, nearly degenerate with the intermediate ones, count as well)
    R = std::max(R, std::pow(sm::maxabs(c6.cast<cd>()) / (0.003 * gap), 1 / 6.));
    VP_CHECK(sm::maxabs((c6 - c6.transpose()).cast<cd>()) == 0, "C6 matrix is not symmetric");
    if (sm::maxabs(c3.cast<cd>()) != 0) {
        throw vp::Discard();
    }
    auto want = sm::spectrum((c6 / std::pow(R, 6)).cast<cd>());
    double scale = std::max(std::abs(want.front()), std::abs(want.back()));
    two.r = {{R * std::sin(angle), 0, R * std::cos(angle)}};
    auto sys = two.make<double>();
    Mat h = sm::dense(sys.getHamiltonian());
    auto st = sys.getStates();
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(h.real());
    // the eigenstates with the largest weights on the multiplets
    Eigen::MatrixXd B = sm::dense(sys.getBasisvectors()).real();
    std::vector<std::pair<double, double>> found;
    for (Eigen::Index k = 0; k < h.cols(); ++k) {
        Eigen::VectorXd v = B * es.eigenvectors().col(k);
        double w = 0;
        for (size_t i = 0; i < st.size(); ++i) {
            if (all.count(st[i])) {
                w += v(static_cast<Eigen::Index>(i)) * v(static_cast<Eigen::Index>(i));
            }
        }
        found.emplace_back(w, es.eigenvalues()(k) - e0);
    }
    std::sort(found.rbegin(), found.rend());
    std::vector<double> got;
    for (size_t i = 0; i < m.st.size() && i < found.size(); ++i) {
        if (found[i].first < 0.9) {
            throw vp::Discard();
        }
        got.push_back(found[i].second);
    }
    std::sort(got.begin(), got.end());
    double d = sm::distance(got, want), resolution = 1e-13 * std::abs(e0) * static_cast<double>(h.cols());
    if (scale < 100 * resolution) {
        throw vp::Discard();
    }
    VP_CHECK(d <= 0.02 * scale + resolution, "angle " << angle << " dn " << dn << " " << a << " " << b << " R " << R << ": level shifts " << vp::show(got) << " of the diagonalised pair, C6/R^6 " << vp::show(want));
    vp::nontrivial();
    vp::label(same ? "same level" : "different levels");
    vp::label(angle == 0 ? "along z" : "tilted");
    vp::label("dn " + std::to_string(dn));
}
} // namespace
