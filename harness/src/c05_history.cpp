// C05: species data depend only on the database, not on history, copies or threads.
#include "qdcheck.hpp"

#include <atomic>
#include <memory>
#include <thread>

using namespace qdm;

namespace {
struct File {
    std::string path;
    std::optional<Db> db; // nothing: missing or unusable
    std::string kind;
};
void put(const std::string &path, const std::string &text) {
    std::ofstream o(path, std::ios::binary | std::ios::trunc);
    o << text;
}
const std::vector<std::string> names = {"A", "Rb", "Cs", "Sr3"};

void write_random(vp::Src &src, File &f) {
    Db d = gen_db(src, names);
    int style = static_cast<int>(src.pick(0, 15));
    switch (src.pick(0, 9)) {
    case 0:
        std::remove(f.path.c_str());
        f.db.reset();
        f.kind = "missing";
        break;
    case 1:
        put(f.path, "");
        f.db.reset();
        f.kind = "empty";
        break;
    case 2:
        put(f.path, to_sql(d, style, true, false));
        f.db.reset();
        f.kind = "no-ritz";
        break;
    case 3:
        put(f.path, to_sql(d, style, false, true));
        f.db.reset();
        f.kind = "no-potential";
        break;
    case 4:
        put(f.path, to_sql(d, style & ~2) + "\nBEGIN TRANSACTION;\nthis is not sql;\n");
        f.db.reset();
        f.kind = "bad-sql";
        break;
    default:
        put(f.path, to_sql(d, style));
        f.db = d;
        f.kind = "ok";
    }
}
std::unique_ptr<QuantumDefect> query(const Query &q, const std::string &file, bool embedded_by_empty) {
    if (file.empty() && !embedded_by_empty) {
        return std::make_unique<QuantumDefect>(q.sp, q.n, q.l, q.j);
    }
    return std::make_unique<QuantumDefect>(q.sp, q.n, q.l, q.j, file);
}
// A copied level, made by several routes; the original is destroyed.
std::unique_ptr<QuantumDefect> copy_of(vp::Src &src, std::unique_ptr<QuantumDefect> o) {
    std::unique_ptr<QuantumDefect> c;
    switch (src.pick(0, 2)) {
    case 0:
        c = std::make_unique<QuantumDefect>(*o);
        break;
    case 1: {
        std::vector<QuantumDefect> v;
        v.push_back(*o);
        v.push_back(*o);
        c = std::make_unique<QuantumDefect>(v[1]);
        break;
    }
    default:
        c = std::make_unique<QuantumDefect>(std::move(*o));
    }
    o.reset();
    return c;
}
struct Held {
    std::unique_ptr<QuantumDefect> qd;
    Level want;
    double cond;
    std::string what;
};
} // namespace

VP_FACET("history", 2500, 40000, "at least two different databases answered with a value") {
    std::string dir = vp::fresh_dir("c05");
    std::vector<File> files(3);
    for (size_t k = 0; k < files.size(); ++k) {
        files[k].path = dir + "/db" + std::to_string(k);
        write_random(src, files[k]);
    }
    std::vector<Held> held;
    std::set<std::string> answered;
    // a few queries that are asked again and again
    std::vector<Query> pool;
    for (int k = 0; k < 3; ++k) {
        const File &f = src.of(files);
        pool.push_back(gen_query(src, f.db ? *f.db : golden(), names));
    }
    long nops = src.pick(3, 16);
    for (long op = 0; op < nops; ++op) {
        switch (src.pick(0, 9)) {
        case 0: {
            File &f = files[src.pick(0, 2)];
            write_random(src, f);
            VP_NOTE("write " << f.path.back() << ":" << f.kind << "; ");
            break;
        }
        case 1: // same file, other name or the other way round
        {
            size_t a = src.pick(0, 2), b = src.pick(0, 2);
            if (files[a].kind != "missing" && a != b) {
                std::rename(files[a].path.c_str(), files[b].path.c_str());
                files[b].db = files[a].db;
                files[b].kind = files[a].kind;
                files[a].db.reset();
                files[a].kind = "missing";
                VP_NOTE("rename " << a << "->" << b << "; ");
            }
            break;
        }
        case 2:
            if (!held.empty()) {
                Held &h = held[src.pick(0, static_cast<long>(held.size()) - 1)];
                h.qd = copy_of(src, std::move(h.qd));
                VP_NOTE("copy; ");
            }
            break;
        default: {
            long k = src.pick(0, 3);
            const std::string file = k == 3 ? "" : files[k].path;
            const Db *db = k == 3 ? &golden() : files[k].db ? &*files[k].db : nullptr;
            Query q = src.chance(2, 3) ? src.of(pool) : gen_query(src, db ? *db : golden(), names);
            std::string what = "level " + show(q) + " of " + (k == 3 ? "the shipped database" : "database " + std::to_string(k) + " (" + files[k].kind + ")");
            VP_NOTE("query " << show(q) << "@" << (k == 3 ? "shipped" : std::to_string(k)) << "; ");
            std::optional<Level> w = db ? db->level(q.sp, q.n, q.l, q.j) : std::nullopt;
            if (!w) {
                VP_CHECK(vp::throws([&] { query(q, file, src.flip()); }), what << " has no data but was given a value");
                break;
            }
            double cond = db->condition(q.sp, q.n, q.l, q.j);
            if (!(cond < 1e6)) {
                break;
            }
            Held h{query(q, file, src.flip()), *w, cond, what};
            compare(*h.qd, h.want, h.cond, what);
            VP_CHECK(energy_level(q.sp, q.n, q.l, q.j, file) == h.qd->energy, what << ": energy_level differs");
            answered.insert(file);
            if (src.flip()) {
                h.qd = copy_of(src, std::move(h.qd));
                compare(*h.qd, h.want, h.cond, "copy of " + what);
            }
            held.push_back(std::move(h));
        }
        }
        for (auto &h : held) {
            compare(*h.qd, h.want, h.cond, "later, " + h.what);
        }
    }
    if (answered.size() >= 2) {
        vp::nontrivial(true);
    }
    vp::remove_tree(dir);
}

VP_FACET("race-threads", 400, 6000, "two threads asked for the same level") {
    std::string dir = vp::fresh_dir("c05t");
    std::vector<Db> dbs;
    std::vector<std::string> paths;
    long nf = src.pick(0, 2);
    for (long k = 0; k < nf; ++k) {
        dbs.push_back(gen_db(src, names, 2));
        paths.push_back(dir + "/" + std::to_string(k));
        put(paths.back(), to_sql(dbs.back(), static_cast<int>(src.pick(0, 15))));
    }
    // n decides whether the process has seen the level before, so use a wide range
    std::vector<std::pair<long, Query>> work;
    static long fresh = 200; // levels nobody asked for before
    long m = src.pick(1, 6);
    for (long k = 0; k < m; ++k) {
        long f = src.pick(0, nf);
        Query q = gen_query(src, f < nf ? dbs[f] : golden(), names);
        if (f == nf && src.chance(2, 3)) {
            q.sp = "Rb";
            q.l = 1;
            q.j = 1.5;
            q.n = static_cast<int>(fresh++);
        }
        const Db &d = f < nf ? dbs[f] : golden();
        auto w = d.level(q.sp, q.n, q.l, q.j);
        if (w && !(d.condition(q.sp, q.n, q.l, q.j) < 1e6)) {
            continue;
        }
        work.push_back({f, q});
        VP_NOTE(show(q) << "@" << (f < nf ? std::to_string(f) : "shipped") << " ");
    }
    long nt = src.pick(2, 6);
    bool rotate = src.flip();
    VP_NOTE("threads=" << nt << " rotate=" << rotate);
    vp::nontrivial(!work.empty());
    std::atomic<long> ready{0};
    std::vector<std::string> errors(nt);
    std::vector<std::thread> ts;
    for (long t = 0; t < nt; ++t) {
        ts.emplace_back([&, t] {
            ++ready;
            while (ready < nt) {
            }
            for (size_t k = 0; k < work.size(); ++k) {
                auto &it = work[(k + (rotate ? t : 0)) % work.size()];
                const Db &d = it.first < nf ? dbs[it.first] : golden();
                const Query &q = it.second;
                auto w = d.level(q.sp, q.n, q.l, q.j);
                try {
                    try {
                        auto p = query(q, it.first < nf ? paths[it.first] : "", false);
                        if (!w) {
                            throw vp::Failure("level " + show(q) + " without data was given a value");
                        }
                        compare(*p, *w, d.condition(q.sp, q.n, q.l, q.j), show(q));
                    } catch (const vp::Failure &) {
                        throw;
                    } catch (const std::exception &e) {
                        if (w) {
                            throw vp::Failure("level " + show(q) + " was refused while other threads asked: " + e.what());
                        }
                    }
                } catch (const vp::Failure &e) {
                    errors[t] = e.msg;
                    return;
                }
            }
        });
    }
    for (auto &t : ts) {
        t.join();
    }
    for (auto &e : errors) {
        VP_CHECK(e.empty(), e);
    }
    vp::remove_tree(dir);
}
