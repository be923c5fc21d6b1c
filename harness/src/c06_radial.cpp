// C06: radial wavefunctions.  Oracles: exact hydrogen functions (stable recurrence, own quadrature in
// extended precision), an independent integration of the radial equation on a finer grid with an
// independently evaluated model potential, and agreement of the two methods.
#include "Constants.hpp"
#include "Wavefunction.hpp"
#include "qdcheck.hpp"

#include <memory>

using namespace qdm;
using L = long double;

namespace {
// u_nl(r) = r R_nl(r) of hydrogen, as exp(log) * polynomial with scaling
L hyd_u(int n, int l, L r) {
    if (r <= 0) {
        return 0;
    }
    L x = 2 * r / n;
    int k = n - l - 1;
    L a = 2 * l + 1;
    // associated Laguerre by recurrence with rescaling
    L p0 = 1, p1 = 1 + a - x, lg = 0;
    L p = k == 0 ? p0 : p1;
    for (int i = 1; i < k; ++i) {
        L p2 = ((2 * i + 1 + a - x) * p1 - (i + a) * p0) / (i + 1);
        p0 = p1;
        p1 = p2;
        L m = std::max(std::abs(p0), std::abs(p1));
        if (m > 1e100L) {
            p0 /= m;
            p1 /= m;
            lg += std::log(m);
        }
        p = p1;
    }
    L ln = 0.5L * (std::lgamma(L(n - l)) - std::lgamma(L(n + l + 1))) - std::log(L(n)) - x / 2 + (l + 1) * std::log(x) + lg;
    // library convention: sign chosen such that the outermost lobe is (-1)^(n-l+1)
    return std::exp(ln) * p;
}
// <n1 l1| r^k |n2 l2> by the trapezoid rule in x = sqrt(r)
double hyd_integral(int n1, int l1, int k, int n2, int l2) {
    int n = std::max(n1, n2);
    double X = std::sqrt(2. * n * (n + 15)) + 12;
    int N = 1500;
    L h = L(X) / N, s = 0;
    for (int i = 1; i <= N; ++i) {
        L x = h * i, r = x * x;
        s += hyd_u(n1, l1, r) * hyd_u(n2, l2, r) * std::pow(r, L(k)) * 2 * x;
    }
    return static_cast<double>(s * h);
}
// outermost lobe of the Laguerre polynomial has sign (-1)^(n-l-1); the library makes it (-1)^(n-l+1)
// for both methods, i.e. the same.

double scale_of(const QuantumDefect &a, const QuantumDefect &b, int k) { return std::pow(1.5 * std::abs(a.nstar * b.nstar), k); }

std::string hydrogen_file() {
    static std::string path;
    if (path.empty()) {
        std::string o = "CREATE TABLE `model_potential` ( `element` text,`L` int,`ac` real,`Z` int,`a1` real,`a2` real,`a3` real,`a4` real,`rc` real);\n"
                        "CREATE TABLE `rydberg_ritz` ( `element` text,`L` int,`J` real,`d0` real,`d2` real,`d4` real,`d6` real,`d8` real,`Ry` real);\n";
        o += "INSERT INTO model_potential VALUES('H',0,0,1,1,1,0,0,1);\n";
        for (int l = 0; l < 40; ++l) {
            for (double j : {l - 0.5, l + 0.5}) {
                if (j > 0) {
                    o += "INSERT INTO rydberg_ritz VALUES('H'," + std::to_string(l) + "," + num(j) + ",0,0,0,0,0,109737.31568525);\n";
                }
            }
        }
        path = vp::fresh_dir("hyd") + "/h.sql";
        std::ofstream(path) << o;
    }
    return path;
}
double own_V(const Level &v, const std::string &sp, int l, double j, double r) {
    double s = sp.back() == '1' ? 0 : sp.back() == '3' ? 1 : 0.5;
    double Z = 1 + (v.p.Z - 1) * std::exp(-v.p.a1 * r) - r * (v.p.a3 + v.p.a4 * r) * std::exp(-v.p.a2 * r);
    double V = -Z / r - v.p.ac / (2 * std::pow(r, 4)) * (1 - std::exp(-std::pow(r / v.p.rc, 6)));
    if (l < 4) {
        double alpha = 1 / 137.035999139;
        V += alpha * alpha / (4 * r * r * r) * (j * (j + 1) - l * (l + 1) - s * (s + 1));
    }
    return V;
}
double own_g(const Level &v, const std::string &sp, int l, double j, double r) {
    return (2. * l + .5) * (2. * l + 1.5) / r + 8 * r * (own_V(v, sp, l, j, r) - v.energy / 6579683.920757349);
}
Query tabulated(vp::Src &src, int nmin, int nmax) {
    static const std::vector<std::string> sp = {"Rb", "Cs", "Li", "Na", "K", "Sr1", "Sr3"};
    Query q;
    q.sp = src.of(sp);
    auto &t = golden().ritz.at(q.sp);
    auto e = t.begin();
    std::advance(e, src.pick(0, static_cast<long>(t.size()) - 1));
    q.l = e->first.first;
    q.j = e->first.second;
    if (q.l == t.rbegin()->first.first && src.flip()) {
        int k = static_cast<int>(src.pick(0, 8));
        q.l += k;
        q.j += k;
    }
    q.n = static_cast<int>(src.pick(std::max(nmin, q.l + 1), nmax));
    return q;
}
void check_grid(const Eigen::MatrixX<double> &xy, const char *m, const std::string &what) {
    VP_CHECK(xy.cols() == 2 && xy.rows() > 10, m << " of " << what << " has shape " << xy.rows() << "x" << xy.cols());
    for (int i = 0; i < xy.rows(); ++i) {
        VP_CHECK(std::isfinite(xy(i, 0)) && std::isfinite(xy(i, 1)), m << " of " << what << " is not finite at point " << i);
        VP_CHECK(i == 0 || xy(i, 0) > xy(i - 1, 0), m << " of " << what << ": grid does not increase at " << i);
        VP_CHECK(i == 0 || vp::near(xy(i, 0) - xy(i - 1, 0), 0.01, 1e-9, 1e-11), m << " of " << what << ": step at " << i);
    }
    VP_CHECK(xy(0, 0) >= 1, m << " of " << what << ": grid starts at " << xy(0, 0));
}
} // namespace

VP_FACET("shape", 500, 20000, "effective quantum number above 3") {
    Query q = tabulated(src, 5, src.chance(1, 4) ? 180 : 80);
    VP_NOTE(show(q));
    auto lv = golden().level(q.sp, q.n, q.l, q.j);
    if (!lv || lv->nstar < std::max(1.5, q.l + 0.5) || lv->nstar > q.n + 0.1) {
        throw vp::Discard();
    }
    vp::nontrivial(lv->nstar > 3);
    QuantumDefect qd(q.sp, q.n, q.l, q.j);
    for (int m = 0; m < 2; ++m) {
        const char *name = m ? "Whittaker" : "Numerov";
        Eigen::MatrixX<double> xy = m ? Whittaker(qd).integrate() : Numerov(qd).integrate();
        check_grid(xy, name, show(q));
        double norm = 0, top = 0, turn = std::sqrt(2 * lv->nstar * lv->nstar);
        int sign = (q.n - q.l) % 2 == 0 ? -1 : 1, outer = 0;
        for (int i = 0; i < xy.rows(); ++i) {
            double x = xy(i, 0), u = m ? xy(i, 1) : xy(i, 1) * std::sqrt(x);
            norm += u * u * 2 * x * 0.01;
            top = std::max(top, std::abs(u));
        }
        for (int i = 0; i < xy.rows(); ++i) {
            double x = xy(i, 0), u = m ? xy(i, 1) : xy(i, 1) * std::sqrt(x);
            if (x > turn && std::abs(u) > 1e-4 * top) { // beyond the classical turning point
                outer = u > 0 ? 1 : -1;
                VP_CHECK(outer == sign, name << " of " << show(q) << ": the outermost lobe has the wrong sign");
            }
        }
        VP_CHECK(outer != 0, name << " of " << show(q) << " vanishes beyond the turning point");
        VP_CHECK(std::abs(xy(xy.rows() - 1, 1)) < 1e-2 * top, name << " of " << show(q) << " does not decay: " << xy(xy.rows() - 1, 1) << " at the outer edge");
        double tol = 1e-6;
        if (m) {
            tol = q.l > 4 && golden().ritz.at(q.sp).rbegin()->first.first <= q.l ? 1e-5 : 1.;
            if (lv->nstar > 10 && tol == 1.) {
                tol = 200. / std::pow(lv->nstar, 3);
            }
            vp::label(tol < 0.05 ? "whittaker norm checked tightly" : "whittaker norm checked loosely");
        }
        VP_CHECK(vp::near(norm, 1, tol), name << " of " << show(q) << " is not normalised: " << norm);
        double one = m ? IntegrateRadialElement<Whittaker>(qd, 0, qd) : IntegrateRadialElement<Numerov>(qd, 0, qd);
        VP_CHECK(vp::near(one, norm, 1e-6), name << " of " << show(q) << ": <r^0> is " << one << ", norm is " << norm);
    }
}

VP_FACET("hydrogen", 250, 10000, "different principal quantum numbers and power at least one") {
    int nmax = src.chance(1, 3) ? 150 : 50;
    int n1 = static_cast<int>(src.pick(2, nmax)), n2 = src.flip() ? n1 : static_cast<int>(std::max<long>(2, std::min<long>(nmax, n1 + src.pick(-6, 6))));
    int l1 = static_cast<int>(src.size(0, std::min(n1 - 1, 30))), l2 = static_cast<int>(std::max<long>(0, std::min<long>(n2 - 1, l1 + src.pick(-3, 3))));
    int k = static_cast<int>(src.pick(0, 3));
    VP_NOTE("<" << n1 << "," << l1 << "|r^" << k << "|" << n2 << "," << l2 << ">");
    vp::nontrivial(n1 != n2 && k >= 1);
    const std::string f = hydrogen_file();
    QuantumDefect a("H", n1, l1, l1 + 0.5, f), b("H", n2, l2, l2 + 0.5, f);
    double want = hyd_integral(n1, l1, k, n2, l2);
    double sc = scale_of(a, b, k);
    double core = 3. / std::pow(n1 * 1. * n2, 1.5); // weight of the region inside the cut at r = 1, for small l
    if (l1 + l2 > 3) {
        core *= 1e-2;
    }
    if (k == 0 || std::abs(l1 - l2) > 1) {
        core += 5e-3; // the numerical method starts near the inner turning point of the larger l
    }
    if (l1 > n1 / 2 || l2 > n2 / 2) {
        core += 0.1; // nearly circular levels: a sizeable part lies inside the inner end of the grid
        vp::label("nearly circular");
    }
    double num = IntegrateRadialElement<Numerov>(a, k, b), whi = IntegrateRadialElement<Whittaker>(a, k, b);
    double num2 = IntegrateRadialElement<Numerov>(b, k, a), whi2 = IntegrateRadialElement<Whittaker>(b, k, a);
    VP_CHECK(vp::near(num, num2, 1e-11, 1e-11 * sc), "exchanging the levels changes the integral: " << num << " " << num2);
    VP_CHECK(vp::near(whi, whi2, 1e-11, 1e-11 * sc), "exchanging the levels changes the analytic integral: " << whi << " " << whi2);
    VP_CHECK(vp::near(whi, want, 0, (5e-5 + core) * sc), "analytic integral is " << whi << " instead of " << want << " (scale " << sc << ")");
    VP_CHECK(vp::near(num, want, 0, (3e-4 + core) * sc), "numerical integral is " << num << " instead of " << want << " (scale " << sc << ")");
    if (n1 == n2 && l1 == l2 && k > 0) {
        double e = k == 1 ? 0.5 * (3. * n1 * n1 - l1 * (l1 + 1.)) : k == 2 ? n1 * n1 / 2. * (5. * n1 * n1 + 1 - 3. * l1 * (l1 + 1.)) : want;
        VP_CHECK(vp::near(want, e, 1e-9), "harness: reference quadrature " << want << " vs closed form " << e);
        vp::label("diagonal");
    }
}

VP_FACET("methods-agree", 250, 10000, "different levels with an integral that is not small") {
    Query q = tabulated(src, 20, src.chance(1, 3) ? 150 : 60), p = q;
    p.n = std::max(static_cast<int>(q.n + src.pick(-5, 5)), 18);
    auto &t = golden().ritz.at(q.sp);
    auto e = t.begin();
    std::advance(e, src.pick(0, static_cast<long>(t.size()) - 1));
    if (src.flip()) {
        p.l = e->first.first;
        p.j = e->first.second;
    }
    int k = static_cast<int>(src.pick(1, 3));
    VP_NOTE(show(q) << " r^" << k << " " << show(p));
    auto lq = golden().level(q.sp, q.n, q.l, q.j), lp = golden().level(p.sp, p.n, p.l, p.j);
    if (!lq || !lp || lq->nstar < q.l + 1 - 1e-9 || lp->nstar < p.l + 1 - 1e-9 || lq->nstar > q.n + 0.1 || lp->nstar > p.n + 0.1) {
        throw vp::Discard();
    }
    QuantumDefect a(q.sp, q.n, q.l, q.j), b(p.sp, p.n, p.l, p.j);
    double x = IntegrateRadialElement<Numerov>(a, k, b), y = IntegrateRadialElement<Whittaker>(a, k, b), sc = scale_of(a, b, k);
    vp::nontrivial((q.n != p.n || q.l != p.l) && std::abs(x) > 0.02 * sc);
    double tol = q.sp[0] == 'S' ? 0.02 : 1e-3;
    VP_CHECK(vp::near(x, y, 0, tol * sc), "the methods give " << x << " and " << y << " (scale " << sc << ")");
    double x2 = IntegrateRadialElement<Numerov>(b, k, a);
    VP_CHECK(vp::near(x, x2, 1e-11, 1e-11 * sc), "exchanging the levels changes the integral: " << x << " " << x2);
}

VP_FACET("reference-integration", 300, 10000, "core potential differs from hydrogen") {
    Query q = tabulated(src, 8, src.chance(1, 4) ? 150 : 60);
    VP_NOTE(show(q));
    auto lv = golden().level(q.sp, q.n, q.l, q.j);
    if (!lv || lv->nstar < q.l + 0.5 || lv->nstar < 2 || lv->nstar > q.n + 0.1) {
        throw vp::Discard();
    }
    vp::nontrivial(lv->p.Z > 1 && q.l < 4);
    QuantumDefect qd(q.sp, q.n, q.l, q.j);
    Eigen::MatrixX<double> xy = Numerov(qd).integrate();
    check_grid(xy, "Numerov", show(q));
    // own integration from the same outer edge inwards with half the step
    int N = static_cast<int>(xy.rows());
    int M = 2 * N - 1;
    double h = 0.005, x0 = xy(0, 0);
    std::vector<L> y(M, 0);
    auto gg = [&](int i) {
        double x = x0 + i * h;
        return static_cast<L>(own_g(*lv, q.sp, q.l, q.j, x * x));
    };
    y[M - 2] = ((q.n - q.l) % 2 == 0 ? -1 : 1) * 1e-10L;
    L hh = L(h) * h;
    L g1 = gg(M - 2), g2 = gg(M - 1);
    for (int i = M - 3; i >= 0; --i) {
        L g0 = gg(i);
        y[i] = ((2 + 5 * hh / 6 * g1) * y[i + 1] - (1 - hh / 12 * g2) * y[i + 2]) / (1 - hh / 12 * g0);
        g2 = g1;
        g1 = g0;
    }
    L norm = 0, top = 0;
    for (int i = 0; i < N; ++i) {
        L x = x0 + 2 * i * h;
        norm += y[2 * i] * y[2 * i] * x * x * 2 * 0.01L;
    }
    norm = std::sqrt(norm);
    for (int i = 0; i < N; ++i) {
        top = std::max(top, std::abs(y[2 * i] / norm));
    }
    L worst = 0;
    int at = 0;
    for (int i = 0; i < N; ++i) {
        L d = std::abs(y[2 * i] / norm - xy(i, 1));
        if (d > worst) {
            worst = d;
            at = i;
        }
    }
    VP_CHECK(worst < 5e-3L * top, "Numerov of " << show(q) << " differs from the reference at x=" << xy(at, 0) << ": " << xy(at, 1) << " instead of " << double(y[2 * at] / norm)
                                               << " (largest amplitude " << double(top) << ")");
}

VP_FACET("potential", 20000, 400000, "radius within the core region") {
    Query q = tabulated(src, 5, 100);
    double r = src.logreal(1e-2, 1e4);
    VP_NOTE(show(q) << " r=" << r);
    auto lv = golden().level(q.sp, q.n, q.l, q.j);
    if (!lv || !(std::abs(lv->nstar) > 0.5)) {
        throw vp::Discard();
    }
    vp::nontrivial(r < 20 && lv->p.Z > 1);
    QuantumDefect qd(q.sp, q.n, q.l, q.j);
    double V = own_V(*lv, q.sp, q.l, q.j, r), got = model_potential::V(qd, r);
    double mag = (lv->p.Z + r * (std::abs(lv->p.a3) + std::abs(lv->p.a4) * r) * std::exp(-lv->p.a2 * r)) / r + lv->p.ac / (2 * std::pow(r, 4));
    VP_CHECK(vp::near(got, V, 1e-9, 1e-10 * mag), "potential is " << got << " instead of " << V);
    double g = own_g(*lv, q.sp, q.l, q.j, r), gg = model_potential::g(qd, r);
    VP_CHECK(vp::near(gg, g, 1e-8, 8 * r * 1e-9 * mag + 8 * r * 1e-8 * std::abs(lv->energy) / 6.6e6), "g is " << gg << " instead of " << g);
}
