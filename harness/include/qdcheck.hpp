// Comparison of a QuantumDefect with the reference model (used by C04 and C05).
#ifndef QDCHECK_HPP
#define QDCHECK_HPP
#include "QuantumDefect.hpp"
#include "qdmodel.hpp"
namespace qdm {
inline void compare(const QuantumDefect &q, const Level &w, double cond, const std::string &what) {
    double tol = 1e-14 * cond * 50 + 1e-9;
    VP_CHECK(vp::near(q.nstar, w.nstar, 1e-12 + 1e-14 * cond * 50), what << ": nstar is " << q.nstar << " instead of " << w.nstar);
    VP_CHECK(vp::near(q.energy, w.energy, tol), what << ": energy is " << q.energy << " instead of " << w.energy);
    VP_CHECK(q.Z == w.p.Z, what << ": Z is " << q.Z << " instead of " << w.p.Z);
    auto same = [&](double a, double b, const char *n) { VP_CHECK(vp::near(a, b, 1e-14), what << ": " << n << " is " << a << " instead of " << b); };
    same(q.ac, w.p.ac, "ac");
    same(q.a1, w.p.a1, "a1");
    same(q.a2, w.p.a2, "a2");
    same(q.a3, w.p.a3, "a3");
    same(q.a4, w.p.a4, "a4");
    same(q.rc, w.p.rc, "rc");
}
struct Query {
    std::string sp;
    int n, l;
    double j;
};
inline std::string show(const Query &q) {
    std::ostringstream o;
    o << q.sp << "," << q.n << "," << q.l << "," << q.j;
    return o.str();
}
// A query that mostly hits the database
inline Query gen_query(vp::Src &src, const Db &d, const std::vector<std::string> &names) {
    Query q;
    q.sp = src.of(names);
    auto it = d.ritz.find(q.sp);
    if (it == d.ritz.end() || it->second.empty() || src.chance(1, 12)) {
        q.l = static_cast<int>(src.pick(-2, 40));
        q.j = src.pick(-1, 40) * 0.5;
    } else {
        auto e = it->second.begin();
        std::advance(e, src.pick(0, static_cast<long>(it->second.size()) - 1));
        q.l = e->first.first;
        q.j = e->first.second;
        if (src.chance(1, 3)) { // beyond the table
            int k = static_cast<int>(src.pick(1, 30));
            q.l += k;
            q.j += k;
            if (src.chance(1, 4)) {
                q.j -= 1;
            }
        } else if (src.chance(1, 10)) {
            q.j += src.of({1., -1., 2., 0.5, 1e-3});
        }
    }
    q.n = static_cast<int>(src.flip() ? src.pick(std::max(5, q.l + 1), 120) : src.pick(std::max(1, q.l + 1), 12));
    if (src.chance(1, 20)) {
        q.n = static_cast<int>(src.pick(120, 2000));
    }
    return q;
}
} // namespace qdm
#endif
