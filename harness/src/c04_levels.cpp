// C04: level energies and quantum defects follow the database entries.
#include "qdcheck.hpp"

using namespace qdm;

namespace {
// one query through all entry points, against the model
void check_query(const Db &db, const Query &q, const std::string &file) {
    auto w = db.level(q.sp, q.n, q.l, q.j);
    auto make = [&] { return file.empty() ? QuantumDefect(q.sp, q.n, q.l, q.j) : QuantumDefect(q.sp, q.n, q.l, q.j, file); };
    if (!w) {
        VP_CHECK(vp::throws([&] { make(); }), "level " << show(q) << " without data was given a value");
        VP_CHECK(vp::throws([&] { energy_level(q.sp, q.n, q.l, q.j, file); }), "energy_level of " << show(q) << " without data returned");
        VP_CHECK(vp::throws([&] { nstar(q.sp, q.n, q.l, q.j, file); }), "nstar of " << show(q) << " without data returned");
        vp::label("rejected");
        return;
    }
    double cond = db.condition(q.sp, q.n, q.l, q.j);
    if (!(cond < 1e6)) {
        throw vp::Discard();
    }
    QuantumDefect qd = make();
    VP_CHECK(qd.species == q.sp && qd.n == q.n && qd.l == q.l && qd.j == q.j, "the quantum numbers of " << show(q) << " changed");
    compare(qd, *w, cond, show(q));
    VP_CHECK(energy_level(q.sp, q.n, q.l, q.j, file) == qd.energy, "energy_level differs from the level's energy for " << show(q));
    VP_CHECK(nstar(q.sp, q.n, q.l, q.j, file) == qd.nstar, "nstar differs from the level's nstar for " << show(q));
    int maxl = db.ritz.at(q.sp).rbegin()->first.first;
    if (q.l > maxl) {
        vp::label("l beyond table");
    }
    if (q.l > db.pot.at(q.sp).rbegin()->first) {
        vp::label("l beyond potentials");
    }
    vp::nontrivial(true);
}
} // namespace

VP_FACET("shipped", 20000, 400000, "the level has tabulated data") {
    static const std::vector<std::string> names = {"Li", "Na", "K", "Rb", "Cs", "Sr1", "Sr3", "H", "", "rb", "Rb ", "Sr2", "Sr", "nop"};
    Query q = gen_query(src, golden(), names);
    VP_NOTE(show(q));
    check_query(golden(), q, "");
}

VP_FACET("custom-database", 2500, 30000, "the database has data for at least one queried level") {
    static const std::vector<std::string> all = {"A", "Rb", "O'Neil", "x y", "\xc3\xa9", "1", "NULL", "B;--"};
    std::vector<std::string> names;
    long k = src.pick(1, 4);
    for (long i = 0; i < k; ++i) {
        names.push_back(src.of(all));
    }
    Db d = gen_db(src, names, 1);
    std::string dir = vp::fresh_dir("c04");
    std::string f = dir + "/defects.sql";
    std::ofstream(f) << to_sql(d, static_cast<int>(src.pick(0, 15)));
    names.push_back("missing");
    names.push_back("Cs");
    long m = src.pick(1, 8);
    for (long i = 0; i < m; ++i) {
        Query q = gen_query(src, d, names);
        VP_NOTE(show(q) << " ");
        auto w = d.level(q.sp, q.n, q.l, q.j);
        if (w && !(d.condition(q.sp, q.n, q.l, q.j) < 1e6)) {
            continue;
        }
        check_query(d, q, f);
    }
    vp::remove_tree(dir);
}

VP_FACET("same-as-shipped-file", 300, 3000, "the level has tabulated data") {
    // the shipped database given as a file answers like the embedded one
    static const std::vector<std::string> names = {"Li", "Na", "K", "Rb", "Cs", "Sr1", "Sr3", "nop"};
    Query q = gen_query(src, golden(), names);
    VP_NOTE(show(q));
    check_query(golden(), q, std::string(std::getenv("VP_REPO")) + "/pairinteraction/databases/quantum_defects.sql");
}
