// C07: Wigner rotation matrices.  Oracle: the closed-form sum for d^j_{m m'}(beta) in extended
// precision, plus group identities.
#include "WignerD.hpp"
#include "vp.hpp"

#include <complex>

namespace {
using L = long double;
L fact(int n) {
    L r = 1;
    for (int k = 2; k <= n; ++k) {
        r *= k;
    }
    return r;
}
// closed form (Wigner 1931), arguments doubled
L small_d(int j2, int m2, int mp2, L beta) {
    int a = (j2 + m2) / 2, b = (j2 - m2) / 2, ap = (j2 + mp2) / 2, bp = (j2 - mp2) / 2;
    int dm = (m2 - mp2) / 2; // m - m'
    L c = std::cos(beta / 2), s = std::sin(beta / 2), sum = 0;
    for (int k = 0; k <= j2; ++k) {
        // k >= 0, ap - k >= 0, m - m' + k >= 0, b - k >= 0
        if (ap - k < 0 || dm + k < 0 || b - k < 0) {
            continue;
        }
        L t = ((dm + k) % 2 ? -1.L : 1.L) * std::pow(c, L(j2 - 2 * k - dm)) * std::pow(s, L(2 * k + dm)) / (fact(ap - k) * fact(k) * fact(dm + k) * fact(b - k));
        sum += t;
    }
    return sum * std::sqrt(fact(a) * fact(b) * fact(ap) * fact(bp));
}
double angle(vp::Src &src) {
    switch (src.pick(0, 4)) {
    case 0:
        return M_PI / 2 * static_cast<double>(src.pick(-4, 4));
    case 1:
        return M_PI / 12 * static_cast<double>(src.pick(-24, 24));
    case 2:
        return M_PI / 2 * static_cast<double>(src.pick(-4, 4)) + src.sym(1) * src.of({1e-3, 1e-8, 1e-12, 1e-15});
    case 3:
        return src.sym(30);
    default:
        return src.real(0, M_PI);
    }
}
double tol(int j2) { return 1e-12 * std::pow(2., 0.5 * j2); }
const int JMAX2 = 24;
} // namespace

VP_FACET("closed-form", 40000, 800000, "0 < |m|,|m'| and an angle that is no multiple of 90 degrees") {
    int j2 = static_cast<int>(src.size(0, JMAX2));
    double beta = angle(src);
    WignerD w;
    int m2 = j2 - 2 * static_cast<int>(src.pick(0, j2)), mp2 = j2 - 2 * static_cast<int>(src.pick(0, j2));
    VP_NOTE("j=" << j2 / 2. << " m=" << m2 / 2. << " m'=" << mp2 / 2. << " beta=" << beta);
    double q = beta / (M_PI / 2);
    vp::nontrivial(m2 != 0 && mp2 != 0 && std::abs(q - std::round(q)) > 1e-6);
    double got = w(j2 / 2.f, m2 / 2.f, mp2 / 2.f, beta);
    double want = static_cast<double>(small_d(j2, m2, mp2, beta));
    VP_CHECK(vp::near(got, want, 0, tol(j2)), "d is " << got << " instead of " << want);
    double al = angle(src), ga = angle(src);
    VP_NOTE(" alpha=" << al << " gamma=" << ga);
    auto D = w(j2 / 2.f, m2 / 2.f, mp2 / 2.f, al, beta, ga);
    std::complex<double> Dw = std::polar(1., -(m2 / 2.) * al) * want * std::polar(1., -(mp2 / 2.) * ga);
    VP_CHECK(std::abs(D - Dw) < tol(j2), "D is " << D << " instead of " << Dw);
    VP_CHECK(w(j2 / 2.f, m2 / 2.f, mp2 / 2.f, beta) == got, "a repeated evaluation differs");
}

VP_FACET("group", 1500, 20000, "j > 1/2 and neither angle is a multiple of 90 degrees") {
    int j2 = static_cast<int>(src.size(0, JMAX2));
    double b1 = angle(src), b2 = angle(src);
    VP_NOTE("j=" << j2 / 2. << " beta1=" << b1 << " beta2=" << b2);
    double q1 = b1 / (M_PI / 2), q2 = b2 / (M_PI / 2);
    vp::nontrivial(j2 > 1 && std::abs(q1 - std::round(q1)) > 1e-6 && std::abs(q2 - std::round(q2)) > 1e-6);
    WignerD w;
    int n = j2 + 1;
    auto mat = [&](double b) {
        std::vector<double> m(n * n);
        for (int i = 0; i < n; ++i) {
            for (int k = 0; k < n; ++k) {
                m[i * n + k] = w(j2 / 2.f, j2 / 2.f - i, j2 / 2.f - k, b);
            }
        }
        return m;
    };
    auto A = mat(b1), B = mat(b2), C = mat(b1 + b2), T = mat(-b1);
    double t = tol(j2) * 10;
    for (int i = 0; i < n; ++i) {
        for (int k = 0; k < n; ++k) {
            double u = 0, p = 0;
            for (int x = 0; x < n; ++x) {
                u += A[i * n + x] * A[k * n + x];
                p += A[i * n + x] * B[x * n + k];
            }
            VP_CHECK(vp::near(u, i == k ? 1 : 0, 0, t), "not unitary at " << i << "," << k << ": " << u);
            VP_CHECK(vp::near(p, C[i * n + k], 0, t), "d(b1)d(b2) differs from d(b1+b2) at " << i << "," << k << ": " << p << " instead of " << C[i * n + k]);
            VP_CHECK(vp::near(T[i * n + k], A[k * n + i], 0, t), "d(-b) is not the transpose at " << i << "," << k);
            double e = A[(n - 1 - k) * n + (n - 1 - i)]; // d_{m m'} = d_{-m' -m}
            VP_CHECK(vp::near(A[i * n + k], e, 0, t), "symmetry under exchange and sign change broken at " << i << "," << k);
        }
    }
}

VP_FACET("full-rotations", 1500, 20000, "j >= 1 and three generic angles") {
    // composition of two full rotations, compared with the rotation obtained from the spin-1/2 matrices
    int j2 = static_cast<int>(src.size(0, 12));
    double a[2][3];
    for (auto &r : a) {
        for (double &x : r) {
            x = src.flip() ? src.sym(3) : angle(src);
        }
    }
    VP_NOTE("j=" << j2 / 2. << " angles=");
    for (auto &r : a) {
        for (double x : r) {
            VP_NOTE(x << ",");
        }
    }
    vp::nontrivial(j2 >= 2);
    using C = std::complex<double>;
    auto su2 = [](const double *e) { // own spin-1/2 matrix exp(-i a sz/2) exp(-i b sy/2) exp(-i g sz/2)
        double c = std::cos(e[1] / 2), s = std::sin(e[1] / 2);
        return std::array<C, 4>{std::polar(1., -(e[0] + e[2]) / 2) * c, -std::polar(1., -(e[0] - e[2]) / 2) * s,
                                std::polar(1., (e[0] - e[2]) / 2) * s, std::polar(1., (e[0] + e[2]) / 2) * c};
    };
    auto U = su2(a[0]), V = su2(a[1]);
    std::array<C, 4> W{U[0] * V[0] + U[1] * V[2], U[0] * V[1] + U[1] * V[3], U[2] * V[0] + U[3] * V[2], U[2] * V[1] + U[3] * V[3]};
    // representation of W on spin j through the symmetric product of 2j spinors
    auto rep = [&](const std::array<C, 4> &M, int m2, int mp2) {
        // coefficient of x^{j+m} y^{j-m} in (M00 x + M10 y)^{j+m'} (M01 x + M11 y)^{j-m'}, normalised
        int p = (j2 + mp2) / 2, q = (j2 - mp2) / 2, t = (j2 + m2) / 2;
        C sum = 0;
        for (int k = 0; k <= p; ++k) {
            int l = t - k; // from the second factor
            if (l < 0 || l > q) {
                continue;
            }
            double bin = static_cast<double>(fact(p) / (fact(k) * fact(p - k)) * fact(q) / (fact(l) * fact(q - l)));
            sum += bin * std::pow(M[0], k) * std::pow(M[2], p - k) * std::pow(M[1], l) * std::pow(M[3], q - l);
        }
        return sum * static_cast<double>(std::sqrt(fact(t) * fact(j2 - t) / (fact(p) * fact(q))));
    };
    WignerD w;
    int n = j2 + 1;
    for (int i = 0; i < n; ++i) {
        for (int k = 0; k < n; ++k) {
            C s = 0;
            for (int x = 0; x < n; ++x) {
                s += w(j2 / 2.f, j2 / 2.f - i, j2 / 2.f - x, a[0][0], a[0][1], a[0][2]) * w(j2 / 2.f, j2 / 2.f - x, j2 / 2.f - k, a[1][0], a[1][1], a[1][2]);
            }
            C want = rep(W, j2 - 2 * i, j2 - 2 * k);
            VP_CHECK(std::abs(s - want) < 1e-10, "composition of two rotations differs at " << i << "," << k << ": " << s << " instead of " << want);
        }
    }
}
