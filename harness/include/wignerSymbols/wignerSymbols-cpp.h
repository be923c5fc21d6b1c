// Stand-in for the joeydumont/wignerSymbols library (not installable offline).
// Racah's closed formulas evaluated with exact prime-free long double arithmetic on factorials;
// arguments in this project are small (j <= ~60), so long double is accurate to ~1e-15.
// As the library does, 0 is returned when a selection rule or triangle condition is violated.
#ifndef VP_WIGNERSYMBOLS_H
#define VP_WIGNERSYMBOLS_H
#include <algorithm>
#include <cmath>
#include <vector>

namespace WignerSymbols {
namespace vp_detail {
inline long double fact(int n) {
    static const std::vector<long double> table = [] {
        std::vector<long double> t(400);
        t[0] = 1;
        for (int i = 1; i < 400; ++i) {
            t[i] = t[i - 1] * i;
        }
        return t;
    }();
    return table[n];
}
inline bool isint(double x) { return std::abs(x - std::round(x)) < 1e-6; }
inline int ri(double x) { return static_cast<int>(std::lround(x)); }
inline bool tri(double a, double b, double c) {
    return a >= 0 && b >= 0 && c >= 0 && isint(a + b + c) && c <= a + b + 1e-9 &&
        c >= std::abs(a - b) - 1e-9;
}
inline long double delta2(double a, double b, double c) {
    return fact(ri(a + b - c)) * fact(ri(a - b + c)) * fact(ri(-a + b + c)) /
        fact(ri(a + b + c + 1));
}
} // namespace vp_detail

inline double wigner3j(double j1, double j2, double j3, double m1, double m2, double m3) {
    using namespace vp_detail;
    if (!tri(j1, j2, j3) || std::abs(m1 + m2 + m3) > 1e-9 || std::abs(m1) > j1 + 1e-9 ||
        std::abs(m2) > j2 + 1e-9 || std::abs(m3) > j3 + 1e-9 || !isint(j1 + m1) ||
        !isint(j2 + m2) || !isint(j3 + m3)) {
        return 0;
    }
    int t1 = ri(j2 - m1 - j3);
    int t2 = ri(j1 + m2 - j3);
    int t3 = ri(j1 + j2 - j3);
    int t4 = ri(j1 - m1);
    int t5 = ri(j2 + m2);
    int tmin = std::max({0, t1, t2});
    int tmax = std::min({t3, t4, t5});
    long double sum = 0;
    for (int t = tmin; t <= tmax; ++t) {
        long double term = 1.0L /
            (fact(t) * fact(t - t1) * fact(t - t2) * fact(t3 - t) * fact(t4 - t) * fact(t5 - t));
        sum += (t % 2 == 0) ? term : -term;
    }
    long double pref = std::sqrt(delta2(j1, j2, j3) * fact(ri(j1 + m1)) * fact(ri(j1 - m1)) *
                                 fact(ri(j2 + m2)) * fact(ri(j2 - m2)) * fact(ri(j3 + m3)) *
                                 fact(ri(j3 - m3)));
    int sign = ri(j1 - j2 - m3);
    return static_cast<double>((sign % 2 == 0 ? 1 : -1) * pref * sum);
}

inline double wigner6j(double a, double b, double c, double d, double e, double f) {
    using namespace vp_detail;
    if (!tri(a, b, c) || !tri(a, e, f) || !tri(d, b, f) || !tri(d, e, c)) {
        return 0;
    }
    int n1 = ri(a + b + c), n2 = ri(a + e + f), n3 = ri(d + b + f), n4 = ri(d + e + c);
    int m1 = ri(a + b + d + e), m2 = ri(b + c + e + f), m3 = ri(a + c + d + f);
    int tmin = std::max({n1, n2, n3, n4});
    int tmax = std::min({m1, m2, m3});
    long double sum = 0;
    for (int t = tmin; t <= tmax; ++t) {
        long double term = fact(t + 1) /
            (fact(t - n1) * fact(t - n2) * fact(t - n3) * fact(t - n4) * fact(m1 - t) *
             fact(m2 - t) * fact(m3 - t));
        sum += (t % 2 == 0) ? term : -term;
    }
    long double pref =
        std::sqrt(delta2(a, b, c) * delta2(a, e, f) * delta2(d, b, f) * delta2(d, e, c));
    return static_cast<double>(pref * sum);
}
} // namespace WignerSymbols
#endif
