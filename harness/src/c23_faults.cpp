// C23: interrupted runs and damaged cache directories; afterwards, the calculation pipeline has to
// deliver what it delivers with an empty cache directory.
#include "pipeline.hpp"

#include <sys/stat.h>

using namespace pl;

namespace {
const char *alkali[] = {"Rb", "Cs", "Li", "Na", "K"};
struct Task {
    Conf c;
    bool complex = false;
};
void fields(vp::Src &src, Conf &c, bool complex, int n) {
    gen_fields(src, c, complex, false, n);
    if (constant(c) && src.chance(2, 3)) {
        c["maxEz"] = num(number(c, "minEz") + src.real(0.1, 5));
    }
}
Task gen_task(vp::Src &src) {
    Task t;
    Conf &c = t.c;
    Atom a = gen_atom(src, alkali[src.choice(4)]), b = a;
    a.l = std::min(a.l, 1);
    a.j = a.l + 0.5;
    a.m = 0.5;
    put(c, a, "1");
    c["samebasis"] = "false";
    gen_common(src, c);
    c["steps"] = std::to_string(src.pick(2, 5));
    c["deltaNSingle"] = src.chance(1, 4) ? "1" : "0";
    c["deltaLSingle"] = "1";
    t.complex = src.flip();
    fields(src, c, t.complex, a.n);
    int kind = static_cast<int>(src.choice(3));
    vp::label(kind == 0 ? "one atom" : kind == 1 ? "two separate atoms" : "atom pair");
    if (kind > 0) {
        b = a;
        b.n += static_cast<int>(src.choice(1));
        put(c, b, "2");
        c["samebasis"] = src.flip() ? "true" : "false";
    }
    if (kind > 1) {
        c["deltaNSingle"] = "0";
        c["deltaMSingle"] = src.flip() ? "1" : "0";
        c["deltaNPair"] = c["deltaLPair"] = c["deltaJPair"] = c["deltaMPair"] = "-1";
        c["deltaEPair"] = src.flip() ? "-1" : num(src.logreal(50, 1000));
        c["exponent"] = std::to_string(src.pick(3, 4));
        for (std::string k : {"conserveM", "sametrafo", "invE", "invO", "perE", "perO", "refE", "refO"}) {
            c[k] = "false";
        }
        c["zerotheta"] = "true";
        if (is(c, "samebasis") && src.flip()) {
            c["perE"] = c["perO"] = "true";
            c["exponent"] = "3";
        }
        double r = sm::gen_distance(src, b.n);
        c["minR"] = num(r / 2);
        c["maxR"] = src.flip() ? num(r / 2) : num(r);
    }
    return t;
}
struct Entry {
    std::string dir, name; // without ending
    int owner;             // number of the calculation
};
// the results of the runs, as announced
std::vector<Entry> entries(const std::vector<Run> &runs) {
    std::vector<Entry> v;
    std::set<std::string> known;
    for (size_t i = 0; i < runs.size(); ++i) {
        for (auto &s : runs[i].sections) {
            for (auto &b : s.out) {
                if (known.insert(b.path).second) {
                    size_t k = b.path.rfind('/');
                    v.push_back({b.path.substr(0, k), b.path.substr(k + 1), static_cast<int>(i)});
                }
            }
        }
    }
    return v;
}
// positions of the bytes that describe the structure of a matrix file (types, lengths, dimensions)
std::vector<size_t> structure(const std::string &data) {
    std::vector<size_t> pos;
    size_t p = 0;
    auto get = [&](size_t at, size_t n) {
        unsigned long v = 0;
        if (at + n > data.size()) {
            throw std::runtime_error("harness: the format of the matrix files has changed");
        }
        for (size_t i = 0; i < n; ++i) {
            v |= static_cast<unsigned long>(static_cast<unsigned char>(data[at + i])) << (8 * i);
        }
        return v;
    };
    auto mark = [&](size_t n) {
        for (size_t i = 0; i < n; ++i) {
            pos.push_back(p + i);
        }
    };
    bool complex = (get(2, 1) & 2) != 0;
    auto scalar = [&] {
        size_t type = get(p, 2), n = type == 1032 ? 4 : type == 1108 ? 1 : 0;
        if (n == 0) {
            throw std::runtime_error("harness: the format of the matrix files has changed");
        }
        mark(2 + n);
        p += 2 + n;
    };
    auto vector = [&] {
        size_t n = get(p + 2, 4);
        mark(8);
        size_t type = get(p + 6, 2), s = type == 2064 ? 8 : type == 2032 || type == 1032 || type == 1132 ? 4 : type == 1064 || type == 1164 ? 8 : 0;
        if (s == 0) {
            throw std::runtime_error("harness: the format of the matrix files has changed");
        }
        p += 8 + n * s;
    };
    for (int i = 0; i < 2; ++i) {
        scalar();
        scalar();
        scalar();
        vector();
        if (complex) {
            vector();
        }
        vector();
        vector();
    }
    if (p != data.size()) {
        throw std::runtime_error("harness: the format of the matrix files has changed");
    }
    return pos;
}
std::string garbage(vp::Src &src, size_t n) {
    std::string s(std::min<size_t>(n, 5000), 0);
    unsigned x = static_cast<unsigned>(src.pick(1, 1 << 30));
    for (auto &c : s) {
        x = x * 1664525u + 1013904223u;
        c = static_cast<char>(x >> 24);
    }
    return s;
}
std::string damage_matrix(vp::Src &src, const std::string &path) {
    std::string d = slurp(path);
    switch (src.choice(5)) {
    case 0:
        unlink(path.c_str());
        return "deleted";
    case 1: {
        auto n = static_cast<size_t>(src.pick(0, std::max<long long>(0, static_cast<long long>(d.size()) - 1)));
        spit(path, d.substr(0, n));
        return "cut to " + std::to_string(n) + " of " + std::to_string(d.size()) + " bytes";
    }
    case 2:
        spit(path, "");
        return "emptied";
    case 3:
        spit(path, garbage(src, src.flip() ? d.size() : static_cast<size_t>(src.pick(1, 200))));
        return "overwritten";
    case 4: { // a part has never reached the disk
        auto n = static_cast<size_t>(src.pick(0, std::max<long long>(0, static_cast<long long>(d.size()) - 1)));
        bool whole = true;
        for (size_t i = n; i < d.size(); ++i) {
            whole = whole && d[i] == 0;
        }
        auto s = structure(d);
        bool hit = false;
        for (size_t p : s) {
            hit = hit || (p >= n && d[p] != 0);
        }
        if (whole || !hit) {
            return "";
        }
        for (size_t i = n; i < d.size(); ++i) {
            d[i] = 0;
        }
        spit(path, d);
        return "zeros from byte " + std::to_string(n);
    }
    default: {
        auto s = structure(d);
        size_t p = s[static_cast<size_t>(src.pick(0, static_cast<long long>(s.size()) - 1))];
        int bit = static_cast<int>(src.choice(7));
        d[p] = static_cast<char>(d[p] ^ (1 << bit));
        spit(path, d);
        return "bit " + std::to_string(bit) + " of byte " + std::to_string(p) + " flipped";
    }
    }
}
std::string damage_params(vp::Src &src, const std::string &path) {
    std::string d = slurp(path);
    if (d.empty()) {
        return "";
    }
    auto at = [&] { return static_cast<size_t>(src.pick(0, static_cast<long long>(d.size()) - 1)); };
    switch (src.choice(6)) {
    case 0:
        unlink(path.c_str());
        return "deleted";
    case 1: {
        size_t n = at();
        spit(path, d.substr(0, n));
        return "cut to " + std::to_string(n) + " of " + std::to_string(d.size()) + " bytes";
    }
    case 2:
        spit(path, "");
        return "emptied";
    case 3:
        spit(path, garbage(src, static_cast<size_t>(src.pick(1, 300))));
        return "overwritten";
    case 4: {
        size_t p = at();
        int bit = static_cast<int>(src.choice(7));
        d[p] = static_cast<char>(d[p] ^ (1 << bit));
        spit(path, d);
        return "bit " + std::to_string(bit) + " of byte " + std::to_string(p) + " flipped";
    }
    case 5:
        spit(path, src.of<std::string>({"{}", "[]", "null", "{\"a\": {\"b\": \"c\"}}", "{", "\"\"", "{}}"}));
        return "replaced by other json";
    default:
        spit(path, std::string(d.size(), '\0'));
        return "overwritten by zeros";
    }
}
void copy(const std::string &from, const std::string &to) { spit(to, slurp(from)); }
} // namespace

VP_FACET("damaged result files", 250, 2500, "at least one file of a result was damaged") {
    Task t = gen_task(src);
    std::vector<Task> tasks = {t};
    if (src.chance(1, 2)) { // another calculation with the same cache directory
        Task u = t;
        u.c["maxBz"] = num(number(u.c, "maxBz") + src.real(1, 300));
        if (src.chance(1, 3)) {
            u.c["diamagnetism"] = is(u.c, "diamagnetism") ? "false" : "true";
        }
        tasks.push_back(u);
    }
    std::string dir = vp::fresh_dir("cache"), log;
    VP_NOTE((t.complex ? "complex " : "real ") + text(t.c));
    std::vector<Run> cold;
    for (auto &x : tasks) {
        std::string fresh = vp::fresh_dir("fresh");
        cold.push_back(run(x.c, fresh, x.complex, 1));
        vp::remove_tree(fresh);
    }
    std::vector<Run> runs;
    for (size_t i = 0; i < tasks.size(); ++i) {
        runs.push_back(run(tasks[i].c, dir, tasks[i].complex, static_cast<int>(src.pick(1, 6))));
        same(runs[i], cold[i], "first run");
    }
    auto e = entries(runs);
    bool hit = false;
    int rounds = static_cast<int>(src.pick(1, 2));
    for (int round = 0; round < rounds; ++round) {
        for (long long n = src.pick(1, 5); n > 0; --n) {
            auto some = [&]() -> Entry & { return e[static_cast<size_t>(src.pick(0, static_cast<long long>(e.size()) - 1))]; };
            Entry &x = some();
            std::string p = x.dir + "/" + x.name, what;
            bool present = !slurp(p + ".mat").empty() && !slurp(p + ".json").empty();
            switch (src.choice(11)) {
            case 0:
            case 1:
            case 2:
            case 3:
                if (present) {
                    try {
                        what = damage_matrix(src, p + ".mat");
                    } catch (const std::runtime_error &) { // damaged before
                        unlink((p + ".mat").c_str());
                        what = "deleted";
                    }
                    what = what.empty() ? "" : x.name + ".mat " + what;
                }
                break;
            case 4:
            case 5:
            case 6:
                if (present) {
                    what = damage_params(src, p + ".json");
                    what = what.empty() ? "" : x.name + ".json " + what;
                }
                break;
            case 7: { // the files of two results exchanged
                Entry &y = some();
                std::string q = y.dir + "/" + y.name;
                if (p != q && x.dir == y.dir && x.name.substr(0, 4) == y.name.substr(0, 4) && present && !slurp(q + ".mat").empty() && !slurp(q + ".json").empty()) {
                    for (std::string end : {".mat", ".json"}) {
                        std::string a = slurp(p + end), b = slurp(q + end);
                        spit(p + end, b);
                        spit(q + end, a);
                    }
                    what = "files of " + x.name + " and " + y.name + " exchanged";
                    // a parameter file alone must not be repaired with the matrix of another result
                }
                break;
            }
            case 8: // the whole directory
                vp::remove_tree(x.dir);
                what = "directory of matrices deleted";
                if (src.flip()) {
                    mkdir(x.dir.c_str(), 0700);
                    what += " and created again";
                }
                break;
            case 9: { // databases
                std::string f = src.of<std::string>({"cache_matrix_real.db", "cache_matrix_complex.db", "cache_elements.db"});
                if (unlink((dir + "/" + f).c_str()) == 0) {
                    what = f + " deleted";
                }
                break;
            }
            case 10: { // another file appears
                if (access(x.dir.c_str(), F_OK) != 0) {
                    break;
                }
                spit(x.dir + "/" + src.of<std::string>({"one_.mat", "two_.mat", "one_.json", "x"}), garbage(src, 50));
                what = "another file";
                break;
            }
            default:
                vp::remove_tree(dir);
                mkdir(dir.c_str(), 0700);
                what = "everything deleted";
            }
            if (!what.empty()) {
                log += "; " + what;
                VP_NOTE(log);
    log.clear();
                hit = true;
            }
        }
        if (src.chance(1, 3)) { // the next run does not reach the end
            size_t i = static_cast<size_t>(src.pick(0, static_cast<long long>(tasks.size()) - 1));
            Crash c;
            c.below = tasks[i].complex ? "/cache_matrix_complex/" : "/cache_matrix_real/";
            c.at = static_cast<long>(src.pick(1, 8));
            c.mode = src.of<std::string>({"before", "half", "after"});
            int threads = static_cast<int>(src.pick(1, 2));
            log += "; calculation " + std::to_string(i + 1) + " with " + std::to_string(threads) + " threads ended " + c.mode + " change " + std::to_string(c.at) + " of the results";
            VP_NOTE(log);
            log.clear();
            Run r = run(tasks[i].c, dir, tasks[i].complex, threads, c, false);
            VP_CHECK(r.status == -SIGKILL || (r.status == 0 && r.end), "a run ended with status " << r.status << ": " << r.errors.substr(0, 300));
        }
        for (size_t i = 0; i < tasks.size(); ++i) {
            if (tasks.size() > 1 && round + 1 < rounds && src.flip()) {
                continue;
            }
            int threads = static_cast<int>(src.pick(1, 6));
            log += "; calculation " + std::to_string(i + 1) + " with " + std::to_string(threads) + " threads";
            VP_NOTE(log);
    log.clear();
            runs.push_back(run(tasks[i].c, dir, tasks[i].complex, threads));
            same(runs.back(), cold[i], "calculation " + std::to_string(i + 1) + " after the damage");
        }
        e = entries(runs);
        e.erase(std::remove_if(e.begin(), e.end(), [](const Entry &x) { return slurp(x.dir + "/" + x.name + ".mat").empty(); }), e.end());
        if (e.empty()) {
            break;
        }
    }
    vp::remove_tree(dir);
    vp::nontrivial(hit);
}
VP_FACET("interrupted runs", 150, 2500, "the run was ended at a change of a file") {
    Task t = gen_task(src);
    std::string dir = vp::fresh_dir("cache"), log;
    VP_NOTE((t.complex ? "complex " : "real ") + text(t.c));
    std::string fresh = vp::fresh_dir("fresh");
    // crash points: any change below the cache directory, or of the matrix files only
    std::string below = src.flip() ? "" : t.complex ? "/cache_matrix_complex/" : "/cache_matrix_real/";
    Crash count;
    count.below = below;
    Run cold = run(t.c, fresh, t.complex, 1, count);
    vp::remove_tree(fresh);
    VP_CHECK(cold.ops > 0, "harness: no changes of files counted");
    Run r;
    bool ended = false;
    for (long long n = src.pick(1, 3), i = 0; i < n; ++i) {
        Crash c;
        c.below = below;
        c.at = static_cast<long>(src.pick(1, cold.ops));
        c.mode = src.of<std::string>({"before", "half", "after"});
        Task u = t;
        bool other = src.chance(1, 4);
        if (other) {
            u.c["maxBz"] = num(number(u.c, "maxBz") + 100);
        }
        int threads = static_cast<int>(src.pick(1, 6));
        log += std::string("; ") + (other ? "other run" : "run") + " with " + std::to_string(threads) + " threads ended " + c.mode + " operation " + std::to_string(c.at) + " of " + std::to_string(cold.ops) + " in " + (below.empty() ? "/" : below);
        VP_NOTE(log);
    log.clear();
        r = run(u.c, dir, u.complex, threads, c, false);
        VP_CHECK(r.status == -SIGKILL || (r.status == 0 && r.end), "a run ended with status " << r.status << ": " << r.errors.substr(0, 300));
        ended = ended || r.status == -SIGKILL;
    }
    int threads = static_cast<int>(src.pick(1, 6));
    log += "; " + std::to_string(threads) + " threads";
    VP_NOTE(log);
    log.clear();
    Run warm = run(t.c, dir, t.complex, threads);
    same(warm, cold, "run after the interruption");
    warm = run(t.c, dir, t.complex, 2);
    same(warm, cold, "second run after the interruption");
    vp::remove_tree(dir);
    vp::nontrivial(ended);
}
VP_FACET("damaged databases", 100, 1000, "a database was damaged") {
    Task t = gen_task(src);
    std::string dir = vp::fresh_dir("cache"), log;
    VP_NOTE((t.complex ? "complex " : "real ") + text(t.c));
    Run cold = run(t.c, dir, t.complex, 1);
    std::string f = dir + "/" + (src.flip() ? "cache_elements.db" : t.complex ? "cache_matrix_complex.db" : "cache_matrix_real.db"), d = slurp(f);
    if (d.empty()) {
        throw vp::Discard();
    }
    bool must = false;
    switch (src.choice(4)) {
    case 0:
        spit(f, "");
        log += "; emptied ";
        must = true;
        break;
    case 1:
        unlink(f.c_str());
        log += "; deleted ";
        must = true;
        break;
    case 2: {
        auto n = static_cast<size_t>(src.pick(1, static_cast<long long>(d.size()) - 1));
        spit(f, d.substr(0, n));
        log += "; cut to " + std::to_string(n) + " of " + std::to_string(d.size()) + " bytes ";
        break;
    }
    case 3:
        spit(f, garbage(src, d.size()));
        log += "; overwritten ";
        break;
    default: {
        size_t page = 4096 * static_cast<size_t>(src.pick(0, static_cast<long long>(d.size()) / 4096 - 1));
        std::string g = garbage(src, 4096);
        d.replace(page, 4096, g);
        spit(f, d);
        log += "; page " + std::to_string(page / 4096) + " overwritten ";
    }
    }
    log += f.substr(f.rfind('/') + 1);
    VP_NOTE(log);
    log.clear();
    int threads = static_cast<int>(src.pick(1, 6));
    // a database that cannot be read may stop the calculation, but must not alter the results
    Run r = run(t.c, dir, t.complex, threads, {}, false);
    if (must || (r.status == 0 && r.end)) {
        Run w = run(t.c, dir, t.complex, threads);
        same(w, cold, "run after the damage");
        vp::label("completed");
    } else {
        vp::label("refused");
        VP_CHECK(r.status == -SIGABRT || r.status > 0, "the run ended with status " << r.status);
    }
    vp::remove_tree(dir);
    vp::nontrivial();
}
