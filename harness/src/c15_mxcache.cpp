// C15: caching of matrix elements is invisible.  Reference: angular factor (uncoupled basis) times the
// radial integral of the settings in force; and the first value ever seen for the same settings.
#include "mxref.hpp"
#include "vp.hpp"

#include <fstream>
#include <memory>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

namespace {
struct Settings {
    bool whi = false;
    int db = 0; // 0: shipped, 1 and 2: modified copies, 3: missing file, 4: file without the species
    std::map<std::tuple<bool, mx::Level, mx::Level>, double> table; // (method, levels as tabulated) -> reduced dipole in au
};
const std::string &db_path(int k) {
    static std::vector<std::string> p;
    if (p.empty()) {
        std::string dir = vp::scratch();
        p.push_back("");
        for (int v = 1; v <= 4; ++v) {
            qdm::Db d = qdm::golden();
            for (auto it = d.ritz.begin(); it != d.ritz.end();) {
                bool keep = v == 4 ? it->first == "H" : (it->first == "Rb" || it->first == "Cs" || it->first == "Sr1" || it->first == "Sr3");
                if (!keep) {
                    it = d.ritz.erase(it);
                    continue;
                }
                for (auto &kv : it->second) {
                    kv.second.d0 += 0.031 * v;
                }
                ++it;
            }
            p.push_back(dir + "/species" + std::to_string(v) + "-" + std::to_string(getpid()) + ".sql");
            if (v != 3) {
                std::ofstream(p.back()) << qdm::to_sql(d, 0);
            }
        }
    }
    return p.at(k);
}
// radial integral with any database, memoised for the process
double radial(const mx::Level &a, const mx::Level &b, int k, bool whi, int db) {
    if (db == 0) {
        return mx::radial(a, b, k, whi);
    }
    static std::map<std::tuple<mx::Level, mx::Level, int, bool, int>, double> memo;
    auto key = std::make_tuple(a, b, k, whi, db);
    auto it = memo.find(key);
    if (it == memo.end()) {
        it = memo.emplace(key, mx::radial(a, b, k, whi, db_path(db))).first;
    }
    return it->second;
}
struct Request {
    int kind; // 0 multipole(k), 1 multipole(kr,ka), 2 dipole, 3 diamagnetism, 4 magnetic, 5 radial
    StateOne a, b;
    int kr, ka;
    std::string str() const {
        std::ostringstream o;
        o << std::vector<std::string>{"multipole", "multipole2", "dipole", "diamagnetic", "magnetic", "radial"}[kind] << "(" << kr << "," << ka << ") " << a.str() << "," << b.str();
        return o.str();
    }
};
double ask(MatrixElementCache &c, const Request &r) {
    switch (r.kind) {
    case 0:
        return c.getElectricMultipole(r.a, r.b, r.ka);
    case 1:
        return c.getElectricMultipole(r.a, r.b, r.kr, r.ka);
    case 2:
        return c.getElectricDipole(r.a, r.b);
    case 3:
        return c.getDiamagnetism(r.a, r.b, r.ka);
    case 4:
        return c.getMagneticDipole(r.a, r.b);
    default:
        return c.getRadial(r.a, r.b, r.kr);
    }
}
// expected value: factor times radial integral; `scale` for the tolerance
struct Expect {
    double factor;
    int k;
    double unit;
};
Expect expect(const Request &r) {
    switch (r.kind) {
    case 3:
        return {2. / 3. * elementary_charge * elementary_charge * mx::angular(mx::ang(r.a), mx::ang(r.b), r.ka), 2, elementary_charge};
    case 4:
        return {-bohr_magneton * mx::moment(mx::ang(r.a), mx::ang(r.b), gL, gS), 0, bohr_magneton};
    case 5:
        return {1, r.kr, 1};
    default:
        return {elementary_charge * mx::angular(mx::ang(r.a), mx::ang(r.b), r.ka), r.kr, elementary_charge};
    }
}
// reduced angular element <l s j||C1||l' s j'> with <jm|C_q|j'm'> = (-1)^(j-m) 3j <||>; only its use as a
// ratio matters: tabulated radial value = tabulated dipole / (angular element / Wigner-Eckart factor)
double tabulated_radial(const mx::Level &a, const mx::Level &b, double value) {
    double s = mx::spin(a.sp);
    for (int ma = mx::d2(-a.j); ma <= mx::d2(a.j); ma += 2) {
        for (int mb = mx::d2(-b.j); mb <= mx::d2(b.j); mb += 2) {
            double x = mx::angular({a.l, s, a.j, ma / 2.}, {b.l, s, b.j, mb / 2.}, 1);
            if (std::abs(x) > 1e-3) {
                // 3j(j 1 j'; -m q m') from the Clebsch-Gordan coefficient <j m|j' m' 1 q> = (-1)^(j'-1+m) sqrt(2j+1) 3j(j' 1 j; m' q -m);
                // odd permutations of the columns give (-1)^(j+1+j')
                int q = (ma - mb) / 2;
                double cg = static_cast<double>(mx::cg2(mx::d2(b.j), mb, 2, 2 * q, mx::d2(a.j), ma));
                long p = std::lround(b.j - 1 + ma / 2.), perm = std::lround(a.j + 1 + b.j), ph = std::lround(a.j - ma / 2.);
                double threej = cg / std::sqrt(2 * a.j + 1) * (((p + perm) % 2) != 0 ? -1 : 1);
                double reduced = x / (threej * ((ph % 2) != 0 ? -1 : 1));
                return value * 5.2917721067e-05 / reduced;
            }
        }
    }
    throw vp::Discard();
}
struct Value {
    bool defined;
    double v, tol;
};
Value expected(const Request &r, const Settings &s) {
    Expect e = expect(r);
    mx::Level la = mx::level(r.a), lb = mx::level(r.b);
    if (std::abs(e.factor) < 1e-10 * e.unit) {
        return {s.db < 3, 0, 1e-9};
    }
    double rad = 0;
    bool have = false;
    if (e.k == 1) {
        for (auto &kv : s.table) {
            auto &t1 = std::get<1>(kv.first);
            auto &t2 = std::get<2>(kv.first);
            bool same = !(t1 < la) && !(la < t1) && !(t2 < lb) && !(lb < t2), swapped = !(t1 < lb) && !(lb < t1) && !(t2 < la) && !(la < t2);
            if (same || swapped) {
                if (std::get<0>(kv.first) != s.whi) {
                    throw vp::Discard(); // whether a table survives a change of the method is not specified
                }
                rad = tabulated_radial(t1, t2, kv.second);
                have = true;
            }
        }
    }
    if (!have) {
        if (s.db >= 3) {
            return {false, 0, 0};
        }
        rad = radial(la, lb, e.k, s.whi, s.db);
    }
    double v = e.factor * rad;
    return {true, v, 4e-7 * std::abs(v) + 1e-9 * std::abs(e.unit * rad)};
}
std::string settings_key(const Settings &s) {
    std::ostringstream o;
    o.precision(17);
    o << s.whi << s.db;
    for (auto &kv : s.table) {
        o << ";" << std::get<1>(kv.first).n << "," << std::get<1>(kv.first).l << "," << std::get<1>(kv.first).j << "," << std::get<2>(kv.first).n << "," << std::get<2>(kv.first).l << ","
          << std::get<2>(kv.first).j << "=" << kv.second;
    }
    return o.str();
}
std::vector<StateOne> pool(vp::Src &src, const std::string &sp, int count) {
    std::vector<StateOne> p;
    StateOne a = mx::gen_state(src, sp, 6, 16, 3);
    p.push_back(a);
    while (static_cast<int>(p.size()) < count) {
        p.push_back(mx::gen_partner(src, src.of(p), src.chance(1, 4) ? 2 : 1, 2, 4));
    }
    return p;
}
Request gen_request(vp::Src &src, const std::vector<StateOne> &p) {
    Request r{static_cast<int>(src.pick(0, 5)), src.of(p), src.of(p), 1, 1};
    if (r.kind == 0) {
        r.kr = r.ka = static_cast<int>(src.pick(1, 3));
    } else if (r.kind == 1) {
        r.kr = static_cast<int>(src.pick(0, 3));
        r.ka = static_cast<int>(src.pick(0, 3));
    } else if (r.kind == 3) {
        r.kr = 2;
        r.ka = src.flip() ? 2 : 0;
    } else if (r.kind == 5) {
        r.kr = static_cast<int>(src.pick(0, 3));
    }
    return r;
}
void precalc(vp::Src &src, MatrixElementCache &c, const std::vector<StateOne> &states, std::ostream &note) {
    int q = static_cast<int>(src.pick(-1, 1)), k = static_cast<int>(src.pick(1, 3)), what = static_cast<int>(src.pick(0, 4));
    note << "precalculate " << what << " q=" << q << " k=" << k << " for " << states.size() << " states; ";
    switch (what) {
    case 0:
        c.precalculateElectricMomentum(states, q);
        break;
    case 1:
        c.precalculateMagneticMomentum(states, q);
        break;
    case 2:
        c.precalculateDiamagnetism(states, src.flip() ? 2 : 0, q);
        break;
    case 3:
        c.precalculateMultipole(states, k);
        break;
    default:
        c.precalculateRadial(states, k);
    }
}
struct User {
    std::unique_ptr<MatrixElementCache> c;
    Settings s;
    std::string dir; // empty: memory only
    bool pending_bad = false;
};
void set_db(User &u, int k) {
    u.c->setDefectDB(db_path(k));
    u.s.db = k;
}
} // namespace

VP_FACET("history", 6000, 60000, "a value was asked for again after a change of settings, a failed request or a reopened directory") {
    std::string root = vp::fresh_dir("c15");
    std::vector<std::string> dirs{root + "/a", root + "/b"};
    for (auto &d : dirs) {
        if (mkdir(d.c_str(), 0700) != 0) {
            vp::fail("cannot create a scratch directory");
        }
    }
    std::vector<std::string> sps{src.of({std::string("Rb"), std::string("Cs"), std::string("Sr3"), std::string("Sr1")})};
    if (src.chance(1, 3)) {
        sps.push_back(src.of({std::string("Rb"), std::string("Sr1"), std::string("Sr3")}));
    }
    std::vector<std::vector<StateOne>> pools;
    for (auto &sp : sps) {
        pools.push_back(pool(src, sp, static_cast<int>(src.pick(2, 5))));
    }
    if (src.chance(1, 3)) { // the same quantum numbers for another species or multiplicity
        std::string from = src.of({std::string("Sr1"), std::string("Rb")}), to = from == "Rb" ? "Cs" : "Sr3";
        if (src.chance(1, 4)) {
            std::swap(from, to);
        }
        std::vector<StateOne> twins;
        sps = {from};
        pools = {pool(src, from, static_cast<int>(src.pick(2, 4)))};
        for (auto &a : pools[0]) {
            double spin = to == "Sr3" ? 1 : to == "Sr1" ? 0 : 0.5;
            if (a.getJ() >= std::abs(a.getL() - spin) && a.getJ() <= a.getL() + spin && mx::rydberg(to, a.getN(), a.getL(), a.getJ())) {
                twins.emplace_back(to, a.getN(), a.getL(), a.getJ(), a.getM());
            }
        }
        if (twins.size() > 1) {
            sps.push_back(to);
            pools.push_back(twins);
            vp::label("twin species");
        }
    }
    std::vector<Request> asked;
    std::map<std::string, double> first; // settings and request -> value
    std::vector<User> users(static_cast<size_t>(src.pick(1, 3)));
    auto open = [&](User &u, const std::string &dir) {
        u.c = dir.empty() ? std::make_unique<MatrixElementCache>() : std::make_unique<MatrixElementCache>(dir);
        u.s = Settings();
        u.dir = dir;
        u.pending_bad = false;
    };
    for (auto &u : users) {
        open(u, src.chance(1, 4) ? "" : src.chance(1, 4) ? dirs[1] : dirs[0]);
    }
    bool interesting = false;
    auto check = [&](User &u, const Request &r) {
        Value w = expected(r, u.s);
        double got = 0;
        bool threw = vp::throws([&] { got = ask(*u.c, r); });
        if (threw && u.pending_bad) { // the failure belongs to the elements requested before
            u.pending_bad = false;
            threw = vp::throws([&] { got = ask(*u.c, r); });
        } else if (!threw && got != 0) { // (a request may be answered with 0 without looking anything up)
            u.pending_bad = false;
        }
        VP_NOTE(r.str() << "=" << (threw ? std::string("throws") : std::to_string(got)) << "; ");
        if (!w.defined) {
            VP_CHECK(threw || std::abs(got) == 0, "request " << r.str() << " with an unusable species database gives " << got);
            interesting = true;
            return;
        }
        VP_CHECK(!threw, "request " << r.str() << " failed although it is valid");
        VP_CHECK(std::abs(got - w.v) <= w.tol, r.str() << " is " << got << " instead of " << w.v);
        std::string key = settings_key(u.s) + "|" + r.str();
        auto ins = first.emplace(key, got);
        VP_CHECK(vp::near(got, ins.first->second, 1e-12, 1e-300), r.str() << " is " << got << " but was " << ins.first->second << " before, with the same settings");
    };
    int ops = static_cast<int>(src.size(3, 22));
    for (int i = 0; i < ops; ++i) {
        size_t ui = src.pick(0, static_cast<long long>(users.size()) - 1);
        User &u = users[ui];
        int op = static_cast<int>(src.pick(0, 15));
        auto &p = pools[src.pick(0, static_cast<long long>(pools.size()) - 1)];
        VP_NOTE("u" << ui << ": ");
        if (op <= 5) {
            Request r = asked.empty() || src.flip() ? gen_request(src, p) : src.of(asked);
            asked.push_back(r);
            check(u, r);
        } else if (op <= 7) {
            std::vector<StateOne> some;
            for (auto &s : p) {
                if (src.chance(2, 3)) {
                    some.push_back(s);
                }
            }
            if (src.chance(1, 6)) {
                some.push_back(StateOne("G"));
            }
            std::ostringstream n;
            precalc(src, *u.c, some, n);
            VP_NOTE(n.str());
            if (u.s.db >= 3) {
                u.pending_bad = true;
            }
        } else if (op <= 9) {
            u.s.whi = !u.s.whi;
            u.c->setMethod(u.s.whi ? WHITTAKER : NUMEROV);
            interesting = interesting || !asked.empty();
            VP_NOTE("method " << u.s.whi << "; ");
        } else if (op == 10) {
            int k = src.chance(1, 3) ? static_cast<int>(src.pick(3, 4)) : static_cast<int>(src.pick(0, 2));
            set_db(u, k);
            u.pending_bad = u.pending_bad || k >= 3; // elements requested before may now be unavailable
            interesting = interesting || !asked.empty();
            VP_NOTE("database " << k << "; ");
        } else if (op == 11) { // tabulated dipole elements
            std::string file = root + "/table.csv";
            std::ofstream f(file);
            f.precision(17);
            bool header = src.flip();
            if (header) {
                f << "n1;l1;j1;n2;l2;j2;value\n";
            }
            int rows = static_cast<int>(src.pick(1, 3));
            VP_NOTE("table ");
            for (int k = 0; k < rows; ++k) {
                const StateOne &a = src.of(p), &b = src.of(p);
                if (std::abs(a.getL() - b.getL()) != 1 || std::abs(a.getJ() - b.getJ()) > 1 || a.getJ() + b.getJ() < 1) {
                    continue;
                }
                double v = std::round(1000 * src.sym(50)) / 1000 + 0.0005;
                f << a.getN() << ";" << a.getL() << ";" << a.getJ() << ";" << b.getN() << ";" << b.getL() << ";" << b.getJ() << ";" << v << "\n";
                if (src.chance(1, 5)) {
                    f << (src.flip() ? "\n" : src.flip() ? "12;1\n" : "a;b;c;d;e;f;g\n");
                }
                mx::Level la = mx::level(a), lb = mx::level(b);
                u.s.table.erase(std::make_tuple(u.s.whi, la, lb));
                u.s.table.erase(std::make_tuple(u.s.whi, lb, la));
                u.s.table[std::make_tuple(u.s.whi, la, lb)] = v;
                VP_NOTE(a.str() << "," << b.str() << "=" << v << " ");
            }
            f.close();
            VP_NOTE("; ");
            bool threw = vp::throws([&] { u.c->loadElectricDipoleDB(file, p[0].getSpecies()); });
            if (threw && u.pending_bad) {
                u.c->loadElectricDipoleDB(file, p[0].getSpecies());
            } else {
                VP_CHECK(!threw, "tabulated dipole elements could not be loaded");
            }
            u.pending_bad = false;
            interesting = interesting || !asked.empty();
        } else if (op == 12) { // failing requests
            StateOne x("Xx", 30, 1, 1.5f, 0.5f), y("Xx", 31, 0, 0.5f, 0.5f);
            int what = static_cast<int>(src.pick(0, 2));
            VP_NOTE("failing request " << what << "; ");
            if (what == 0) {
                VP_CHECK(vp::throws([&] { u.c->getElectricDipole(p[0], x); }), "an element between different species has a value");
            } else if (what == 1) {
                VP_CHECK(vp::throws([&] { u.c->getElectricDipole(x, y); }), "an element of an unknown species has a value");
            } else {
                if (vp::throws([&] { u.c->precalculateElectricMomentum({x, y}, 0); })) {
                    VP_NOTE("(at once) ");
                } else {
                    u.pending_bad = true;
                }
            }
            interesting = interesting || !asked.empty();
        } else if (op <= 14) { // end of one run, start of another
            std::string d = src.chance(1, 6) ? "" : src.chance(1, 3) ? dirs[1] : dirs[0];
            VP_NOTE("reopen " << (d.empty() ? "memory" : d.substr(root.size() + 1)) << "; ");
            u.c.reset();
            open(u, d);
            interesting = interesting || !asked.empty();
        } else {
            for (auto &r : asked) {
                check(u, r);
            }
        }
    }
    for (auto &u : users) { // at the end everybody still answers everything
        for (auto &r : asked) {
            check(u, r);
        }
    }
    users.clear();
    vp::remove_tree(root);
    vp::nontrivial(interesting && !asked.empty());
}

namespace {
// asks all requests and returns the first wrong answer
std::string serve(MatrixElementCache &c, const std::vector<Request> &rs) {
    for (auto &r : rs) {
        Value w = expected(r, Settings());
        double got = 0;
        try {
            got = ask(c, r);
        } catch (const std::exception &e) {
            return r.str() + " failed: " + e.what();
        }
        if (!(std::abs(got - w.v) <= w.tol)) {
            std::ostringstream o;
            o.precision(17);
            o << r.str() << " is " << got << " instead of " << w.v;
            return o.str();
        }
    }
    return "";
}
} // namespace

VP_FACET("shared", 500, 5000, "at least two users wrote to the same directory at the same time") {
    std::string dir = vp::fresh_dir("c15s");
    auto p = pool(src, src.of({std::string("Rb"), std::string("Cs"), std::string("Sr3")}), 5);
    bool threads = src.flip(), inherited = !threads && src.flip();
    int n = static_cast<int>(src.pick(2, 4));
    std::vector<std::vector<Request>> work(n);
    for (auto &w : work) {
        int k = static_cast<int>(src.pick(2, 10));
        for (int i = 0; i < k; ++i) {
            w.push_back(gen_request(src, p));
            expected(w.back(), Settings()); // fills the memo of the reference before forking
        }
    }
    VP_NOTE((threads ? "threads" : inherited ? "processes with an inherited cache" : "processes") << ": " << n << "; first request " << work[0][0].str());
    std::vector<std::string> bad(n);
    if (threads) {
        // the reference is evaluated beforehand; only the library runs concurrently
        std::vector<std::vector<double>> got(n);
        std::vector<std::thread> ts;
        for (int t = 0; t < n; ++t) {
            ts.emplace_back([&, t] {
                try {
                    MatrixElementCache c(dir);
                    for (auto &r : work[t]) {
                        got[t].push_back(ask(c, r));
                    }
                } catch (const std::exception &e) {
                    bad[t] = e.what();
                }
            });
        }
        for (auto &t : ts) {
            t.join();
        }
        for (int t = 0; t < n; ++t) {
            VP_CHECK(bad[t].empty(), "a request failed while the cache directory was shared: " << bad[t]);
            for (size_t i = 0; i < work[t].size(); ++i) {
                Value w = expected(work[t][i], Settings());
                VP_CHECK(std::abs(got[t][i] - w.v) <= w.tol, work[t][i].str() << " is " << got[t][i] << " instead of " << w.v << " while the cache directory was shared");
            }
        }
    } else {
        std::unique_ptr<MatrixElementCache> parent;
        if (inherited) {
            parent = std::make_unique<MatrixElementCache>(dir);
            std::string e = serve(*parent, {work[0][0]});
            VP_CHECK(e.empty(), e);
        }
        std::vector<pid_t> pids;
        std::vector<int> fds;
        for (int t = 0; t < n; ++t) {
            int fd[2];
            if (pipe(fd) != 0) {
                vp::fail("pipe");
            }
            pid_t pid = fork();
            if (pid == 0) {
                close(fd[0]);
                std::string e;
                try {
                    if (!inherited) {
                        parent = std::make_unique<MatrixElementCache>(dir);
                    }
                    e = serve(*parent, work[t]);
                } catch (const std::exception &x) {
                    e = x.what();
                }
                e = "R" + e.substr(0, 2000);
                ssize_t w = write(fd[1], e.data(), e.size());
                (void)w;
                _exit(0);
            }
            close(fd[1]);
            pids.push_back(pid);
            fds.push_back(fd[0]);
        }
        for (int t = 0; t < n; ++t) {
            char buf[4096];
            ssize_t k;
            while ((k = read(fds[t], buf, sizeof buf)) > 0) {
                bad[t].append(buf, k);
            }
            close(fds[t]);
            int st = 0;
            waitpid(pids[t], &st, 0);
        }
        for (int t = 0; t < n; ++t) {
            VP_CHECK(bad[t] == "R", "user " << t << " of a shared cache directory: " << (bad[t].empty() ? "crashed" : bad[t].substr(1)));
        }
        if (inherited) {
            for (auto &w : work) {
                std::string e = serve(*parent, w);
                VP_CHECK(e.empty(), "the first user, afterwards: " << e);
            }
        }
    }
    MatrixElementCache later(dir);
    for (auto &w : work) {
        std::string e = serve(later, w);
        VP_CHECK(e.empty(), "a later run on the same directory: " << e);
    }
    vp::remove_tree(dir);
    vp::nontrivial();
}
