// C10: basis enumeration lists exactly the allowed states, with stable indices.
#include "Basisnames.hpp"
#include "vp.hpp"

#include <algorithm>
#include <fstream>
#include <map>
#include <set>
#include <tuple>

namespace {
typedef std::tuple<int, int, int, int> Q; // n, l, 2j, 2m
typedef std::pair<Q, Q> QQ;
Q q(const StateOneOld &s) { return Q(s.n, s.l, static_cast<int>(std::lround(2 * s.j)), static_cast<int>(std::lround(2 * s.m))); }
QQ q(const StateTwoOld &s) { return {q(s.first()), q(s.second())}; }
std::string show(const Q &s) {
    std::ostringstream o;
    o << "(" << std::get<0>(s) << "," << std::get<1>(s) << "," << std::get<2>(s) << "/2," << std::get<3>(s) << "/2)";
    return o.str();
}
std::string show(const QQ &s) { return show(s.first) + show(s.second); }

struct Limits {
    int n, l, j, m;
};
// reference enumeration by brute force
void enumerate(const Q &s, const Limits &d, std::set<Q> &out) {
    int n0, l0, j0, m0;
    std::tie(n0, l0, j0, m0) = s;
    for (int n = std::max(1, n0 - d.n); n <= n0 + d.n; ++n) {
        for (int l = 0; l < n; ++l) {
            for (int j2 = std::abs(2 * l - 1); j2 <= 2 * l + 1; j2 += 2) {
                for (int m2 = -j2; m2 <= j2; m2 += 2) {
                    if ((d.l < 0 || std::abs(l - l0) <= d.l) && (d.j < 0 || std::abs(j2 - j0) <= 2 * d.j) && (d.m < 0 || std::abs(m2 - m0) <= 2 * d.m)) {
                        out.insert(Q(n, l, j2, m2));
                    }
                }
            }
        }
    }
}
Q gen_state(vp::Src &src) {
    int n = static_cast<int>(src.chance(1, 5) ? src.pick(8, 100) : src.pick(1, 8));
    int l = static_cast<int>(src.pick(0, std::min(n - 1, 12)));
    int j2 = l == 0 ? 1 : 2 * l + (src.flip() ? 1 : -1);
    int m2 = -j2 + 2 * static_cast<int>(src.pick(0, j2));
    return Q(n, l, j2, m2);
}
Limits gen_limits(vp::Src &src, int n) {
    Limits d;
    d.n = static_cast<int>(src.pick(0, n > 8 ? 1 : 3));
    bool small = n > 8;
    d.l = static_cast<int>(src.pick(small ? 0 : -1, small ? 2 : 4));
    d.j = static_cast<int>(src.pick(-1, 4));
    d.m = static_cast<int>(src.pick(-1, 5));
    return d;
}
std::string half(int k) { // like the front end writes them
    std::ostringstream o;
    o << k / 2.;
    return o.str();
}
Configuration conf(const Q &a, const Q &b, const Limits &d, const std::string &sp1, const std::string &sp2) {
    Configuration c;
    c["species1"] << sp1;
    c["species2"] << sp2;
    const Q *s[2] = {&a, &b};
    for (int i = 0; i < 2; ++i) {
        std::string k = std::to_string(i + 1);
        c["n" + k] << std::get<0>(*s[i]);
        c["l" + k] << std::get<1>(*s[i]);
        c["j" + k] << half(std::get<2>(*s[i]));
        c["m" + k] << half(std::get<3>(*s[i]));
    }
    c["deltaNSingle"] << d.n;
    c["deltaLSingle"] << d.l;
    c["deltaJSingle"] << d.j;
    c["deltaMSingle"] << d.m;
    c["missingCalc"] << "true";
    c["missingWhittaker"] << "false";
    return c;
}
// the basis holds exactly `want`, each once, with indices that are exactly 0..size-1
template <typename B, typename S>
void check_basis(const B &b, const std::set<S> &want, const std::string &what, bool indices = true) {
    std::set<S> got;
    std::set<idx_t> idx;
    for (const auto &s : b) {
        VP_CHECK(want.count(q(s)), what << ": the state " << show(q(s)) << " must not be listed");
        VP_CHECK(got.insert(q(s)).second, what << ": the state " << show(q(s)) << " is listed twice");
        VP_CHECK(idx.insert(s.idx).second, what << ": the index " << s.idx << " is used twice");
    }
    for (const auto &w : want) {
        VP_CHECK(got.count(w), what << ": the state " << show(w) << " is missing");
    }
    VP_CHECK(b.size() == want.size(), what << ": size " << b.size());
    if (indices) {
        VP_CHECK(b.dim() == want.size(), what << ": dimension " << b.dim() << " of " << want.size() << " states");
        VP_CHECK(idx.empty() || (*idx.begin() == 0 && *idx.rbegin() == want.size() - 1), what << ": indices are not consecutive from zero");
    }
}
template <typename B>
void check_file(B &b, int atoms, const std::string &what) {
    std::string dir = vp::fresh_dir("c10");
    b.save(dir + "/basis.csv");
    std::ifstream in(dir + "/basis.csv");
    std::string line;
    size_t k = 0;
    while (std::getline(in, line)) {
        VP_CHECK(k < b.size(), what << ": the saved file has too many lines");
        std::vector<double> f;
        std::istringstream is(line);
        std::string cell;
        while (std::getline(is, cell, '\t')) {
            char *end;
            f.push_back(std::strtod(cell.c_str(), &end));
            VP_CHECK(!cell.empty() && *end == 0, what << ": bad cell '" << cell << "' in the saved file");
        }
        VP_CHECK(f.size() == 1u + 4 * atoms, what << ": line '" << line << "' of the saved file");
        std::vector<Q> qs;
        for (int a = 0; a < atoms; ++a) {
            qs.push_back(Q(static_cast<int>(f[1 + 4 * a]), static_cast<int>(f[2 + 4 * a]), static_cast<int>(std::lround(2 * f[3 + 4 * a])), static_cast<int>(std::lround(2 * f[4 + 4 * a]))));
        }
        if constexpr (std::is_same<B, BasisnamesOne>::value) {
            VP_CHECK(f[0] == b.get(k).idx && qs[0] == q(b.get(k)), what << ": line '" << line << "' of the saved file is not state " << k << " " << show(q(b.get(k))));
        } else {
            VP_CHECK(f[0] == b.get(k).idx && qs[0] == q(b.get(k)).first && qs[1] == q(b.get(k)).second, what << ": line '" << line << "' of the saved file is not state " << k);
        }
        ++k;
    }
    VP_CHECK(k == b.size(), what << ": the saved file has " << k << " lines for " << b.size() << " states");
    vp::remove_tree(dir);
}
std::vector<bool> gen_mask(vp::Src &src, size_t n) {
    std::vector<bool> v(n);
    int mode = static_cast<int>(src.pick(0, 3));
    int p = static_cast<int>(src.pick(1, 7));
    for (size_t i = 0; i < n; ++i) {
        v[i] = mode == 0 ? src.chance(p, 8) : mode == 1 ? i % p == 0 : mode == 2 ? i >= n / 2 : true;
    }
    return v;
}
// remove states and compare with the model
template <typename B, typename S>
void check_remove(vp::Src &src, B &b, const std::string &what) {
    long rounds = src.pick(0, 3);
    for (long r = 0; r < rounds; ++r) {
        std::vector<bool> mask = gen_mask(src, b.dim());
        std::vector<std::pair<idx_t, S>> order;
        std::set<S> want;
        for (const auto &s : b) {
            if (mask[s.idx]) {
                order.push_back({s.idx, q(s)});
                want.insert(q(s));
            }
        }
        bool keep = false;
        if constexpr (std::is_same<B, BasisnamesTwo>::value) {
            keep = src.flip();
        }
        size_t dim = b.dim();
        S init{};
        bool initin = false;
        if constexpr (std::is_same<B, BasisnamesTwo>::value) {
            init = q(b.initial());
            initin = want.count(init) != 0;
            if (keep) {
                b.removeUnnecessaryStatesKeepIdx(mask);
            } else {
                b.removeUnnecessaryStates(mask);
            }
        } else {
            b.removeUnnecessaryStates(mask);
        }
        check_basis(b, want, what + " after removal", !keep);
        for (size_t i = 0; i < order.size(); ++i) {
            VP_CHECK(q(b.get(i)) == order[i].second, what << ": removal changed the order of the states");
            VP_CHECK(b.get(i).idx == (keep ? order[i].first : i), what << ": state " << i << " has the index " << b.get(i).idx << " after removal");
        }
        if (keep) {
            VP_CHECK(b.dim() == dim, what << ": removal keeping indices changed the dimension");
        }
        if constexpr (std::is_same<B, BasisnamesTwo>::value) {
            VP_CHECK(q(b.initial()) == init, what << ": removal changed the initial state");
            if (initin && !keep) {
                VP_CHECK(q(b.get(b.initial().idx)) == init, what << ": the index of the initial state is wrong after removal");
            }
        }
        check_file(b, std::is_same<B, BasisnamesTwo>::value ? 2 : 1, what + " after removal");
        vp::label(keep ? "removed, kept indices" : "removed");
    }
}
std::string describe(const Q &a, const Limits &d) {
    std::ostringstream o;
    o << show(a) << " limits " << d.n << "," << d.l << "," << d.j << "," << d.m;
    return o.str();
}
} // namespace

VP_FACET("one-atom", 6000, 100000, "at least two states") {
    Q a = gen_state(src), b = gen_state(src);
    Limits d = gen_limits(src, std::get<0>(a));
    bool second = src.flip();
    std::string what = describe(a, d) + (second ? " (second atom)" : " (first atom)");
    VP_NOTE(what);
    Configuration c = second ? conf(b, a, d, "Cs", "Rb") : conf(a, b, d, "Rb", "Cs");
    BasisnamesOne basis = second ? BasisnamesOne::fromSecond(c) : BasisnamesOne::fromFirst(c);
    std::set<Q> want;
    enumerate(a, d, want);
    check_basis(basis, want, what);
    VP_CHECK(basis.constructedFromFirst() == !second, what << ": constructedFromFirst");
    VP_CHECK(basis.initial().size() == 1 && q(basis.initial()[0]) == a, what << ": the initial state changed");
    VP_CHECK(basis.getConf()["species1"].str() == "Rb" && basis.getConf()["n1"].str() == std::to_string(std::get<0>(a)) && basis.getConf()["n2"].str().empty(), what << ": the recorded configuration is wrong");
    vp::nontrivial(want.size() > 1);
    if (std::get<3>(a) < 0 && d.m < 0) {
        vp::label("unlimited, negative m");
    }
    check_file(basis, 1, what);
    check_remove<BasisnamesOne, Q>(src, basis, what);
}

VP_FACET("both-atoms", 4000, 60000, "the two reference states differ") {
    Q a = gen_state(src), b = src.chance(1, 5) ? a : gen_state(src);
    Limits d = gen_limits(src, std::max(std::get<0>(a), std::get<0>(b)));
    std::string what = show(a) + " and " + describe(b, d);
    VP_NOTE(what);
    if (src.chance(1, 10)) {
        Configuration c = conf(a, b, d, "Rb", "Cs");
        VP_CHECK(vp::throws([&] { BasisnamesOne::fromBoth(c); }), what << ": a common basis of different species was accepted");
        return;
    }
    Configuration c = conf(a, b, d, "Rb", "Rb");
    auto basis = std::make_shared<BasisnamesOne>(BasisnamesOne::fromBoth(c));
    std::set<Q> want;
    enumerate(a, d, want);
    enumerate(b, d, want);
    check_basis(*basis, want, what);
    VP_CHECK(!basis->constructedFromFirst(), what << ": constructedFromFirst");
    VP_CHECK(basis->initial().size() == 2 && q(basis->initial()[0]) == std::min(a, b) && q(basis->initial()[1]) == std::max(a, b), what << ": the initial states changed");
    vp::nontrivial(a != b);
    check_file(*basis, 1, what);
    check_remove<BasisnamesOne, Q>(src, *basis, what);
    if (basis->size() > 60 || basis->size() == 0) {
        return;
    }
    BasisnamesTwo two(basis);
    std::set<QQ> want2;
    for (const auto &s : *basis) {
        for (const auto &t : *basis) {
            want2.insert({q(s), q(t)});
        }
    }
    check_basis(two, want2, what + " pair");
    VP_CHECK(q(two.initial()) == QQ(std::min(a, b), std::max(a, b)), what << ": the initial pair changed");
    check_file(two, 2, what + " pair");
}

VP_FACET("pair", 2500, 40000, "at least four pair states") {
    Q a[2] = {gen_state(src), gen_state(src)};
    Limits d{static_cast<int>(src.pick(0, 1)), static_cast<int>(src.pick(0, 1)), static_cast<int>(src.pick(0, 1)), static_cast<int>(src.pick(0, 2))};
    bool same = src.chance(1, 3);
    std::string what = show(a[0]) + " and " + describe(a[1], d) + (same ? " common basis" : " two bases");
    VP_NOTE(what);
    std::shared_ptr<BasisnamesOne> b1, b2;
    std::shared_ptr<BasisnamesTwo> two;
    if (same) {
        b1 = b2 = std::make_shared<BasisnamesOne>(BasisnamesOne::fromBoth(conf(a[0], a[1], d, "Rb", "Rb")));
    } else {
        Configuration c = conf(a[0], a[1], d, "Rb", src.flip() ? "Cs" : "Rb");
        b1 = std::make_shared<BasisnamesOne>(BasisnamesOne::fromFirst(c));
        b2 = std::make_shared<BasisnamesOne>(BasisnamesOne::fromSecond(c));
        VP_CHECK(vp::throws([&] { BasisnamesTwo t(b1); }), what << ": a pair basis of a single one-atom basis for one atom was accepted");
    }
    if (src.flip()) { // restrict the one-atom bases first
        b1->removeUnnecessaryStates(gen_mask(src, b1->dim()));
        if (b2 != b1) {
            b2->removeUnnecessaryStates(gen_mask(src, b2->dim()));
        }
    }
    if (b1->size() * b2->size() > 4000) {
        throw vp::Discard();
    }
    if (same) {
        two = std::make_shared<BasisnamesTwo>(b1);
        VP_CHECK(vp::throws([&] { BasisnamesTwo t(b1, b1); }), what << ": a pair basis of two bases made for both atoms was accepted");
    } else {
        two = std::make_shared<BasisnamesTwo>(b1, b2);
    }
    std::set<QQ> want;
    for (const auto &s : *b1) {
        for (const auto &t : *b2) {
            want.insert({q(s), q(t)});
        }
    }
    check_basis(*two, want, what);
    // the index of a pair state is the position of its atoms in the one-atom bases
    for (size_t i = 0; i < b1->size(); ++i) {
        for (size_t j = 0; j < b2->size(); ++j) {
            const auto &s = two->get(i * b2->size() + j);
            VP_CHECK(s.idx == i * b2->size() + j && q(s) == QQ(q(b1->get(i)), q(b2->get(j))), what << ": pair state " << i << "," << j << " is " << show(q(s)) << " with index " << s.idx);
        }
    }
    QQ init = same ? QQ(std::min(a[0], a[1]), std::max(a[0], a[1])) : QQ(a[0], a[1]);
    VP_CHECK(q(two->initial()) == init, what << ": the initial pair changed");
    if (want.count(init)) {
        VP_CHECK(q(two->get(two->initial().idx)) == init, what << ": the index of the initial pair is wrong");
    }
    vp::nontrivial(want.size() >= 4);
    check_remove<BasisnamesTwo, QQ>(src, *two, what);
    // one-atom bases recovered from the pair basis
    for (int i = 0; i < 2; ++i) {
        std::shared_ptr<const BasisnamesTwo> ct = two;
        BasisnamesOne r = i == 0 ? BasisnamesOne::fromFirst(ct) : BasisnamesOne::fromSecond(ct);
        std::set<Q> w;
        for (const auto &s : *two) {
            w.insert(i == 0 ? q(s).first : q(s).second);
        }
        check_basis(r, w, what + " recovered atom " + std::to_string(i));
        VP_CHECK(r.initial().size() == 1 && q(r.initial()[0]) == (i == 0 ? init.first : init.second), what << ": initial state of the recovered basis");
        VP_CHECK(r.constructedFromFirst() == (i == 0), what << ": constructedFromFirst of the recovered basis");
    }
    // explicit list
    std::vector<StateOneOld> names;
    for (const auto &s : *b1) {
        names.push_back(s);
    }
    BasisnamesOne e = BasisnamesOne::fromStates(names);
    VP_CHECK(e.size() == names.size() && e.dim() == names.size(), what << ": explicit list");
    for (size_t i = 0; i < names.size(); ++i) {
        VP_CHECK(q(e.get(i)) == q(names[i]) && e.get(i).idx == names[i].idx, what << ": explicit list, state " << i);
    }
}
