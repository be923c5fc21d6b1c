// C08: the Green tensor matches the dipole-interaction formulas.
// Oracle: G_ij = d_i d_j (1/r) evaluated in extended precision; spatial derivatives by forward-mode
// differentiation of that formula; the plate by an image dipole at the mirrored position.
#include "GreenTensor.hpp"
#include "vp.hpp"

#include <array>

namespace {
using L = long double;
struct Dual {
    L v, d;
};
Dual operator+(Dual a, Dual b) { return {a.v + b.v, a.d + b.d}; }
Dual operator-(Dual a, Dual b) { return {a.v - b.v, a.d - b.d}; }
Dual operator*(Dual a, Dual b) { return {a.v * b.v, a.v * b.d + a.d * b.v}; }
Dual operator/(Dual a, Dual b) { return {a.v / b.v, (a.d * b.v - a.v * b.d) / (b.v * b.v)}; }
Dual sqrt(Dual a) {
    L s = std::sqrt(a.v);
    return {s, a.d / (2 * s)};
}
using V = std::array<Dual, 3>;

Dual free_g(const V &r, int i, int j) {
    Dual n = sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]);
    Dual n3 = n * n * n, n5 = n3 * n * n;
    Dual g = Dual{3, 0} * r[i] * r[j] / n5;
    return i == j ? g - Dual{1, 0} / n3 : g;
}
// tensor between a dipole i at a and a dipole j at b, with or without the plate z < 0
Dual g(const V &a, const V &b, int i, int j, bool plate) {
    V r{a[0] - b[0], a[1] - b[1], a[2] - b[2]};
    Dual o = free_g(r, i, j);
    if (plate) {
        V rm{a[0] - b[0], a[1] - b[1], a[2] + b[2]}; // b mirrored
        Dual im = free_g(rm, i, j);
        o = j == 2 ? o + im : o - im; // the image dipole is (-dx,-dy,dz)
    }
    return o;
}
struct Ref {
    L dd[3][3], dq[3][3][3], qd[3][3][3];
};
Ref reference(double x, double y, double z, bool plate, double d) {
    Ref o;
    auto at = [&](int which, int k) { // derivative with respect to coordinate k of atom `which`
        std::array<V, 2> p{V{Dual{x, 0}, Dual{y, 0}, Dual{plate ? d + L(z) / 2 : L(z), 0}}, V{Dual{0, 0}, Dual{0, 0}, Dual{plate ? d - L(z) / 2 : L(0), 0}}};
        if (which >= 0) {
            p[which][k].d = 1;
        }
        return p;
    };
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) {
            auto p = at(-1, 0);
            o.dd[i][j] = g(p[0], p[1], i, j, plate).v;
            for (int k = 0; k < 3; ++k) {
                auto q = at(1, k);
                o.dq[i][j][k] = g(q[0], q[1], i, j, plate).d;
                auto s = at(0, k);
                o.qd[k][i][j] = g(s[0], s[1], i, j, plate).d;
            }
        }
    }
    return o;
}
void check(GreenTensor &G, const Ref &want, double scale, int which, const std::string &when) {
    static const char *c = "xyz";
    double t3 = 2e-13 / std::pow(scale, 3), t4 = 1e-12 / std::pow(scale, 4);
    if (which == 0) {
        const auto &m = G.getDDTensor();
        for (int i = 0; i < 3; ++i) {
            for (int j = 0; j < 3; ++j) {
                VP_CHECK(vp::near(m(i, j), want.dd[i][j], 0, t3), when << ": dipole-dipole " << c[i] << c[j] << " is " << m(i, j) << " instead of " << double(want.dd[i][j]));
            }
        }
        return;
    }
    const auto &t = which == 1 ? G.getDQTensor() : G.getQDTensor();
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) {
            for (int k = 0; k < 3; ++k) {
                double w = which == 1 ? want.dq[i][j][k] : want.qd[i][j][k];
                VP_CHECK(vp::near(t(i, j, k), w, 0, t4),
                         when << ": " << (which == 1 ? "dipole-quadrupole " : "quadrupole-dipole ") << c[i] << c[j] << c[k] << " is " << t(i, j, k) << " instead of " << w);
            }
        }
    }
}
double coord(vp::Src &src, double size) {
    switch (src.pick(0, 4)) {
    case 0:
        return 0;
    case 1:
        return src.sym(size * 1e-3);
    case 2:
        return static_cast<double>(src.pick(-3, 3)) * size / 2;
    default:
        return src.sym(size);
    }
}
} // namespace

VP_FACET("free-space", 60000, 1500000, "the separation is not along a coordinate axis") {
    double size = src.logreal(1e-2, 1e4);
    double x = coord(src, size), y = coord(src, size), z = coord(src, size);
    double r = std::sqrt(x * x + y * y + z * z);
    VP_NOTE(x << "," << y << "," << z << " reads ");
    if (r < 1e-6 * size || r == 0) {
        throw vp::Discard();
    }
    vp::nontrivial((x != 0) + (y != 0) + (z != 0) >= 2);
    Ref want = reference(x, y, z, false, 0);
    GreenTensor G(x, y, z);
    long n = src.pick(3, 6);
    for (long k = 0; k < n; ++k) {
        int which = static_cast<int>(k < 3 ? (k + src.pick(0, 2)) % 3 : src.pick(0, 2));
        VP_NOTE(which);
        check(G, want, r, which, "free space");
    }
}

VP_FACET("plate-history", 60000, 1500000, "a plate was accepted after a component had been read") {
    double size = src.logreal(1e-1, 1e3);
    double x = coord(src, size), z = coord(src, size);
    double y = src.chance(1, 10) ? coord(src, size) : 0;
    double r = std::sqrt(x * x + y * y + z * z);
    if (r < 1e-6 * size || r == 0) {
        throw vp::Discard();
    }
    VP_NOTE(x << "," << y << "," << z << ": ");
    GreenTensor G(x, y, z);
    GreenTensor fresh(x, y, z);
    bool plate = false, read = false;
    double d = 0;
    Ref want = reference(x, y, z, false, 0);
    long n = src.pick(2, 10);
    for (long k = 0; k < n; ++k) {
        if (src.chance(1, 3)) {
            double dn = src.chance(1, 4) ? src.real(0, std::abs(z)) : std::abs(z) / 2 + src.logreal(1e-2, 1e4) * r;
            if (src.chance(1, 12)) {
                dn = -src.real(0, size);
            }
            VP_NOTE("plate " << dn << ";");
            bool bad = y != 0 || dn - std::abs(z) / 2 < 0;
            bool edge = std::abs(dn - std::abs(z) / 2) < 1e-9 * size;
            if (edge) {
                continue;
            }
            bool refused = vp::throws([&] { G.addSurface(dn); });
            VP_CHECK(refused == bad, (bad ? "a plate that is not allowed was accepted" : "an allowed plate was refused") << " (distance " << dn << ", z " << z << ", y " << y << ")");
            if (!bad) {
                plate = true;
                d = dn;
                want = reference(x, y, z, true, d);
                if (read) {
                    vp::nontrivial(true);
                }
            } else {
                vp::label("refused");
            }
        } else {
            int which = static_cast<int>(src.pick(0, 2));
            VP_NOTE("read " << which << ";");
            double s = r;
            if (plate) {
                s = std::min(r, std::sqrt(x * x + 4 * d * d));
            }
            check(G, want, s, which, plate ? "with a plate" : "without a plate");
            read = true;
        }
    }
}

VP_FACET("plate-far-away", 10000, 100000, "always") {
    double size = src.logreal(1e-1, 1e3);
    double x = coord(src, size), z = coord(src, size);
    double r = std::sqrt(x * x + z * z);
    if (r < 1e-3 * size || r == 0) {
        throw vp::Discard();
    }
    VP_NOTE(x << "," << z);
    vp::nontrivial(true);
    GreenTensor F(x, 0, z), P(x, 0, z);
    P.addSurface(r * 1e6);
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) {
            VP_CHECK(vp::near(F.getDDTensor()(i, j), P.getDDTensor()(i, j), 0, 1e-15 / (r * r * r)), "a plate far away changes the dipole-dipole tensor");
            for (int k = 0; k < 3; ++k) {
                VP_CHECK(vp::near(F.getDQTensor()(i, j, k), P.getDQTensor()(i, j, k), 0, 1e-15 / (r * r * r * r)), "a plate far away changes the dipole-quadrupole tensor");
                VP_CHECK(vp::near(F.getQDTensor()(i, j, k), P.getQDTensor()(i, j, k), 0, 1e-15 / (r * r * r * r)), "a plate far away changes the quadrupole-dipole tensor");
            }
        }
    }
}
