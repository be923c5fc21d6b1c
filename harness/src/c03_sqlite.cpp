// C03: database queries deliver exactly the stored rows and values.
#include "SQLite.hpp"
#include "vp.hpp"

#include <atomic>
#include <climits>
#include <cmath>
#include <limits>
#include <thread>

namespace {
struct Row {
    std::string t;
    int i = 0;
    double d = 0;
    bool operator==(const Row &o) const { return t == o.t && i == o.i && d == o.d; }
};
std::string show(const Row &r) {
    std::ostringstream os;
    os.precision(17);
    os << "(";
    for (unsigned char c : r.t) {
        if (c < 0x20 || c >= 0x7f) {
            os << "\\x" << std::hex << static_cast<int>(c) << std::dec;
        } else {
            os << c;
        }
    }
    os << "," << r.i << "," << r.d << ")";
    return os.str();
}
Row gen_row(vp::Src &src) {
    static const std::vector<std::string> atoms = {"a", "Rb", " ", "'", "\"", ";", "--", "%", "\n", "\xc3\xa9", "1.5", "?1", "\xff", "NULL", "0"};
    Row r;
    long n = src.size(0, 6);
    for (long k = 0; k < n; ++k) {
        r.t += src.of(atoms);
    }
    if (src.chance(1, 12)) {
        r.t += std::string(src.pick(1, 3000), 'z');
    }
    if (src.chance(1, 15)) {
        r.t += std::string(1, '\0') + "after";
    }
    r.i = src.flip() ? static_cast<int>(src.pick(-5, 5)) : static_cast<int>(src.pick(INT_MIN, INT_MAX));
    switch (src.pick(0, 3)) {
    case 0:
        r.d = static_cast<double>(src.pick(-100, 100)) / 8;
        break;
    case 1:
        r.d = src.sym(1);
        break;
    case 2:
        r.d = src.logreal(1e-300, 1e300) * (src.flip() ? 1 : -1);
        break;
    default:
        r.d = src.of({0., -0., std::numeric_limits<double>::max(), std::numeric_limits<double>::denorm_min(),
                      std::numeric_limits<double>::infinity(), 9007199254740993., 1e15, 9.2233720368547758e18});
    }
    return r;
}
Row read(sqlite::statement &s) {
    Row r;
    r.t = s.get<std::string>(0);
    r.i = s.get<int>(1);
    r.d = s.get<double>(2);
    return r;
}
void compare(const std::vector<Row> &got, const std::vector<Row> &want, const char *how) {
    for (size_t k = 0; k < std::min(got.size(), want.size()); ++k) {
        VP_CHECK(got[k] == want[k], how << ": row " << k << " is " << show(got[k]) << " instead of " << show(want[k]));
    }
    VP_CHECK(got.size() == want.size(), how << ": " << got.size() << " rows delivered instead of " << want.size());
}
bool step_throws(sqlite::statement &s) {
    try {
        s.step();
    } catch (const sqlite::error &) {
        return true;
    }
    return false;
}
} // namespace

VP_FACET("rows-roundtrip", 24000, 250000, "result set whose size is not two, or a re-run of the query") {
    sqlite::handle db(":memory:");
    sqlite::statement stmt(db);
    stmt.exec("create table test(text text,integer integer,real real);");
    std::vector<Row> rows;
    long n = src.of({0, 1, 2, 3, 4, 7, 20});
    VP_NOTE("rows=" << n << " ");
    stmt.set("insert into test values(?1,?2,?3);");
    stmt.prepare();
    for (long k = 0; k < n; ++k) {
        Row r = gen_row(src);
        VP_NOTE(show(r).substr(0, 60));
        if (src.flip()) {
            stmt.bind(1, r.t);
        } else {
            stmt.bind(1, std::string(r.t)); // temporary
        }
        stmt.bind(2, r.i);
        stmt.bind(3, r.d);
        VP_CHECK(stmt.step() == false, "an insert delivered a row");
        VP_CHECK(step_throws(stmt), "stepping a finished statement was accepted");
        stmt.reset();
        rows.push_back(r);
        if (src.chance(1, 10)) { // run again with one parameter rebound, others kept
            Row r2 = r;
            r2.i = r.i / 2;
            std::string keep = r.t;
            stmt.bind(1, keep);
            stmt.bind(2, r2.i);
            VP_CHECK(!stmt.step(), "second insert");
            stmt.reset();
            rows.push_back(r2);
        }
    }
    std::string sql = "select text,integer,real from test order by rowid;";
    sqlite::statement q(db, sql);
    long reruns = src.pick(1, 4);
    for (long k = 0; k < reruns; ++k) {
        int how = static_cast<int>(src.pick(0, 3));
        VP_NOTE(" run" << how);
        q.reset();
        if (k == 0 || src.flip()) {
            q.set(sql);
            q.prepare();
        }
        std::vector<Row> got;
        if (how == 0) {
            while (q.step()) {
                got.push_back(read(q));
            }
            compare(got, rows, "step loop");
            VP_CHECK(step_throws(q), "stepping after the last row was accepted");
        } else if (how == 1) {
            for (auto &&r : q) {
                got.push_back(read(r));
                VP_CHECK(got.size() <= rows.size(), "range iteration delivers more rows than stored");
            }
            compare(got, rows, "range iteration");
            VP_CHECK(step_throws(q), "stepping after the last row was accepted");
        } else if (how == 2) {
            long stop = src.pick(0, static_cast<long>(rows.size()));
            long cnt = 0;
            while (cnt < stop && q.step()) {
                got.push_back(read(q));
                ++cnt;
            }
            std::vector<Row> want(rows.begin(), rows.begin() + stop);
            compare(got, want, "partial step loop");
        } else {
            auto it = q.begin();
            auto end = q.end();
            size_t cnt = 0;
            for (; it != end; ++it) {
                VP_CHECK(cnt < rows.size(), "iterator delivers more rows than stored");
                VP_CHECK(read(*it) == rows[cnt], "iterator row " << cnt);
                VP_CHECK(read(*it) == rows[cnt], "iterator row read twice " << cnt);
                ++cnt;
            }
            VP_CHECK(cnt == rows.size(), "iterator delivered " << cnt << " of " << rows.size() << " rows");
        }
    }
    vp::label("rows" + std::to_string(std::min<long>(n, 4)));
    vp::nontrivial(n != 2 || reruns > 1);
}

VP_FACET("parameters-select-rows", 6000, 120000, "a query with bound parameters run at least twice with different values") {
    sqlite::handle db(":memory:");
    sqlite::statement stmt(db);
    stmt.exec("create table t(k integer, v real, s text);");
    long n = src.pick(0, 15);
    std::vector<Row> rows;
    stmt.set(std::stringstream("insert into t (k,v,s) values (?2,?3,?1);"));
    stmt.prepare();
    for (long k = 0; k < n; ++k) {
        Row r = gen_row(src);
        r.i = static_cast<int>(src.pick(0, 3));
        stmt.bind(1, r.t);
        stmt.bind(2, r.i);
        stmt.bind(3, r.d);
        stmt.step();
        stmt.reset();
        rows.push_back(r);
    }
    stmt.set("select s,k,v from t where k = ?1 and rowid > ?2 order by rowid;");
    stmt.prepare();
    long runs = src.pick(1, 6);
    VP_NOTE("n=" << n << " runs:");
    for (long k = 0; k < runs; ++k) {
        int key = static_cast<int>(src.pick(0, 3)), off = static_cast<int>(src.pick(0, n));
        VP_NOTE(" (" << key << "," << off << ")");
        stmt.bind(1, key);
        stmt.bind(2, off);
        std::vector<Row> want, got;
        for (size_t x = off; x < rows.size(); ++x) {
            if (rows[x].i == key) {
                want.push_back(rows[x]);
            }
        }
        if (src.flip()) {
            while (stmt.step()) {
                got.push_back(read(stmt));
            }
        } else {
            for (auto &&r : stmt) {
                got.push_back(read(r));
                VP_CHECK(got.size() <= want.size(), "too many rows");
            }
        }
        compare(got, want, "parametrised query");
        stmt.reset();
    }
    vp::nontrivial(runs > 1 && n > 0);
}

VP_FACET("statement-machine", 12000, 250000, "a history with a failing call followed by successful steps") {
    sqlite::handle db(":memory:");
    {
        sqlite::statement s(db);
        s.exec("create table fixed(text text,integer integer,real real); create table log(a integer unique);");
    }
    std::vector<Row> rows;
    long n = src.pick(0, 4);
    {
        sqlite::statement s(db, "insert into fixed values(?1,?2,?3);");
        s.prepare();
        for (long k = 0; k < n; ++k) {
            Row r = gen_row(src);
            r.t = "r" + std::to_string(k);
            s.bind(1, r.t);
            s.bind(2, r.i);
            s.bind(3, r.d);
            s.step();
            s.reset();
            rows.push_back(r);
        }
    }
    enum Kind { None, Select, Insert, Bad };
    sqlite::statement st(db);
    Kind sql = None, compiled = None;
    bool prepared = false, exhausted = false, failed_step = false;
    size_t cursor = 0;
    int bound = 0, logged = 0;
    bool isbound = false;
    int failures = 0, good_after = 0;
    long ops = src.pick(5, 60);
    VP_NOTE("n=" << n << ":");
    for (long k = 0; k < ops; ++k) {
        switch (src.pick(0, 6)) {
        case 0: {
            sql = static_cast<Kind>(src.pick(1, 3));
            VP_NOTE(" set" << sql);
            st.set(sql == Select ? "select text,integer,real from fixed order by rowid"
                       : sql == Insert ? "insert into log values(?1)"
                                       : src.of({std::string("selct nonsense"), std::string("select * from no_such_table"), std::string("insert into log")}));
            prepared = false;
            break;
        }
        case 1: {
            if (sql == None) {
                break;
            }
            if (failed_step) { // the first reset after a failed step reports that failure again
                vp::throws([&] { st.reset(); });
                failed_step = false;
            }
            st.reset();
            exhausted = false;
            VP_NOTE(" prepare");
            bool t = vp::throws([&] { st.prepare(); });
            VP_CHECK(t == (sql == Bad), "prepare of " << (sql == Bad ? "invalid SQL was accepted" : "valid SQL failed"));
            prepared = !t;
            compiled = t ? None : sql;
            cursor = 0;
            isbound = false;
            failures += t;
            break;
        }
        case 2:
        case 3: {
            VP_NOTE(" step");
            bool row = false;
            bool t = vp::throws([&] { row = st.step(); });
            if (!prepared || exhausted) {
                VP_CHECK(t, "step of a" << (prepared ? " finished" : "n unprepared") << " statement was accepted, row=" << row);
                ++failures;
                break;
            }
            if (compiled == Select) {
                VP_CHECK(!t, "stepping a valid query failed");
                VP_CHECK(row == (cursor < rows.size()), "query reports row=" << row << " at position " << cursor << " of " << rows.size());
                if (row) {
                    Row r = read(st);
                    VP_CHECK(r == rows[cursor], "row " << cursor << " is " << show(r));
                    ++cursor;
                    good_after += failures > 0;
                } else {
                    exhausted = true;
                }
            } else {
                if (!isbound && logged > 0) {
                    // inserting NULL is fine for a unique column
                }
                bool dup = isbound && bound < logged;
                VP_CHECK(t == dup, (dup ? "a violated constraint was not reported" : "a valid insert failed"));
                exhausted = true;
                if (dup) {
                    failed_step = true;
                    ++failures;
                } else {
                    if (isbound) {
                        logged = bound + 1;
                    }
                    good_after += failures > 0;
                }
            }
            break;
        }
        case 4: {
            VP_NOTE(" reset");
            if (failed_step) {
                vp::throws([&] { st.reset(); });
                failed_step = false;
            }
            st.reset();
            exhausted = false;
            cursor = 0;
            break;
        }
        case 5: {
            if (compiled == Insert && prepared && !exhausted) {
                bool dup = logged > 0 && src.chance(1, 3);
                bound = dup ? logged - 1 : logged;
                VP_NOTE(" bind" << bound);
                st.bind(1, bound);
                isbound = true;
                VP_CHECK(vp::throws([&] { st.bind(99, 1); }), "binding a parameter that does not exist was accepted");
            }
            break;
        }
        default: {
            bool bad = src.flip();
            VP_NOTE(" exec" << bad);
            if (compiled == Select && cursor > 0 && !exhausted) {
                break; // an open read cursor
            }
            bool t = vp::throws([&] { st.exec(bad ? "nonsense" : "create table if not exists other(x); delete from other;"); });
            VP_CHECK(t == bad, "exec");
            prepared = false;
            sql = None;
            failures += t;
        }
        }
    }
    // the table itself
    sqlite::statement c(db, "select count(*), max(a) from log where a is not null");
    c.prepare();
    VP_CHECK(c.step() && c.get<int>(0) == logged, "log holds " << c.get<int>(0) << " rows instead of " << logged);
    vp::nontrivial(failures > 0 && good_after > 0);
}

VP_FACET("files-and-handles", 400, 6000, "data written through one handle is read through another one") {
    std::string dir = vp::fresh_dir("sq");
    std::string path = dir + "/x.db";
    VP_CHECK(vp::throws([&] { sqlite::handle h(path, SQLITE_OPEN_READWRITE); }), "opening a missing database without the create flag succeeded");
    VP_CHECK(vp::throws([&] { sqlite::handle h(dir + "/no/such/dir/x.db"); }), "opening an impossible path succeeded");
    std::vector<Row> rows;
    long rounds = src.pick(1, 4);
    VP_NOTE("rounds=" << rounds);
    for (long k = 0; k < rounds; ++k) {
        auto h = std::make_unique<sqlite::handle>(path);
        if (src.flip()) { // move it to another place, drop the old one
            auto h2 = std::make_unique<sqlite::handle>(std::move(*h));
            h.reset();
            h = std::move(h2);
            VP_NOTE(" moved");
        }
        if (src.flip()) {
            sqlite::handle other(":memory:");
            other = std::move(*h);
            *h = std::move(other);
            VP_NOTE(" assigned");
        }
        sqlite::statement s(*h);
        s.exec("create table if not exists test(text text,integer integer,real real);");
        s.set("insert into test values(?1,?2,?3);");
        s.prepare();
        long n = src.pick(0, 3);
        for (long x = 0; x < n; ++x) {
            Row r = gen_row(src);
            s.bind(1, r.t);
            s.bind(2, r.i);
            s.bind(3, r.d);
            s.step();
            s.reset();
            rows.push_back(r);
        }
        sqlite::handle ro(path, SQLITE_OPEN_READONLY);
        sqlite::statement q(ro, "select text,integer,real from test order by rowid");
        q.prepare();
        std::vector<Row> got;
        while (q.step()) {
            got.push_back(read(q));
        }
        compare(got, rows, "second handle");
        VP_CHECK(vp::throws([&] { q.exec("delete from test"); }), "writing through a read-only handle succeeded");
    }
    vp::nontrivial(!rows.empty());
    vp::remove_tree(dir);
}

VP_FACET("contention", 60, 600, "another connection holds the write lock when the statement runs") {
    std::string dir = vp::fresh_dir("sq");
    std::string path = dir + "/x.db";
    {
        sqlite::handle h(path);
        sqlite::statement s(h);
        s.exec("create table t(a integer)");
    }
    int nthreads = static_cast<int>(src.pick(2, 4));
    int per = static_cast<int>(src.pick(1, 4));
    bool moved = src.flip();
    int hold_ms = static_cast<int>(src.pick(1, 40));
    VP_NOTE("threads=" << nthreads << " per=" << per << " moved=" << moved << " hold=" << hold_ms << "ms");
    std::atomic<int> errors{0}, ready{0};
    sqlite::handle locker(path);
    sqlite::statement lock(locker);
    lock.exec("begin exclusive");
    std::vector<std::thread> th;
    for (int t = 0; t < nthreads; ++t) {
        th.emplace_back([&, t] {
            auto h = std::make_unique<sqlite::handle>(path);
            if (moved) {
                auto h2 = std::make_unique<sqlite::handle>(std::move(*h));
                h.reset();
                h = std::move(h2);
            }
            ready.fetch_add(1);
            for (int k = 0; k < per; ++k) {
                try {
                    sqlite::statement s(*h);
                    if (k % 2 == 0) {
                        s.exec("insert into t values (" + std::to_string(t * 100 + k) + ")");
                    } else {
                        s.set("insert into t values (?1)");
                        s.prepare();
                        s.bind(1, t * 100 + k);
                        s.step();
                    }
                } catch (const std::exception &) {
                    errors.fetch_add(1);
                }
            }
        });
    }
    while (ready < nthreads) {
        std::this_thread::yield();
    }
    std::this_thread::sleep_for(std::chrono::milliseconds(hold_ms));
    lock.exec("commit");
    for (auto &t : th) {
        t.join();
    }
    VP_CHECK(errors == 0, errors << " statements failed instead of waiting for the lock");
    sqlite::statement q(locker, "select count(distinct a), count(*) from t");
    q.prepare();
    q.step();
    VP_CHECK(q.get<int>(0) == nthreads * per && q.get<int>(1) == nthreads * per, q.get<int>(1) << " rows of " << nthreads * per << " arrived");
    vp::nontrivial();
    vp::remove_tree(dir);
}

VP_FACET("null-and-conversion", 2000, 20000, "the result contains NULL or needs a type conversion") {
    sqlite::handle db(":memory:");
    int i = static_cast<int>(src.pick(-100000, 100000));
    double d = static_cast<double>(src.pick(-1000, 1000)) / 16;
    VP_NOTE(i << " " << d);
    sqlite::statement q(db, "select NULL, ?1, ?2, ?3, '', NULL");
    q.prepare();
    q.bind(1, i);
    q.bind(2, d);
    std::string txt = std::to_string(i);
    q.bind(3, txt);
    VP_CHECK(q.step(), "no row");
    VP_CHECK(q.get<int>(0) == 0 && q.get<double>(0) == 0, "NULL as number is not zero");
    VP_CHECK(q.get<std::string>(5).empty(), "NULL as text is not empty");
    VP_CHECK(q.get<double>(1) == i && q.get<int>(1) == i, "integer");
    VP_CHECK(q.get<std::string>(1) == txt, "integer as text");
    VP_CHECK(q.get<double>(2) == d, "real");
    VP_CHECK(q.get<float>(2) == d, "real as float");
    VP_CHECK(q.get<int>(3) == i, "numeric text as integer");
    VP_CHECK(q.get<std::string>(4).empty(), "empty text");
    VP_CHECK(!q.step(), "a second row");
    vp::nontrivial();
}
