// Reference model of the quantum defect database, independent of /repo's code: own parser of the
// SQL text (a golden copy of the shipped database), own evaluation of the Rydberg-Ritz series.
#ifndef QDMODEL_HPP
#define QDMODEL_HPP
#include "vp.hpp"

#include <cstdlib>
#include <fstream>
#include <map>
#include <optional>
#include <string>
#include <vector>

namespace qdm {
struct Pot {
    double ac;
    int Z;
    double a1, a2, a3, a4, rc;
};
struct Ritz {
    double d0, d2, d4, d6, d8, Ry;
};
struct Level {
    Pot p;
    double nstar, energy;
};
struct Db {
    std::map<std::string, std::map<int, Pot>> pot;
    std::map<std::string, std::map<std::pair<int, double>, Ritz>> ritz;

    // The level, or nothing if the database has no data for it.
    std::optional<Level> level(const std::string &sp, int n, int l, double j) const {
        auto ip = pot.find(sp);
        auto ir = ritz.find(sp);
        if (ip == pot.end() || ir == ritz.end() || ip->second.empty() || ir->second.empty()) {
            return std::nullopt;
        }
        int pl = std::min(l, ip->second.rbegin()->first);
        int rl = std::min(l, ir->second.rbegin()->first.first);
        double mj = -1;
        for (auto &kv : ir->second) {
            if (kv.first.first == rl) {
                mj = std::max(mj, kv.first.second);
            }
        }
        auto p = ip->second.find(pl);
        auto r = ir->second.find({rl, std::min(j, mj)});
        if (p == ip->second.end() || r == ir->second.end()) {
            return std::nullopt;
        }
        Level out;
        out.p = p->second;
        const Ritz &z = r->second;
        double x = 1. / ((n - z.d0) * (n - z.d0));
        double defect = z.d0 + x * (z.d2 + x * (z.d4 + x * (z.d6 + x * z.d8)));
        out.nstar = n - defect;
        // E = -h c Ry / nstar^2, in GHz, Ry in 1/cm
        out.energy = -299792458. * 100 * 1e-9 * z.Ry / (out.nstar * out.nstar);
        return out;
    }
    // how ill-conditioned the series is at n (amplification of rounding)
    double condition(const std::string &sp, int n, int l, double j) const {
        auto ir = ritz.find(sp);
        int rl = std::min(l, ir->second.rbegin()->first.first);
        double mj = -1;
        for (auto &kv : ir->second) {
            if (kv.first.first == rl) {
                mj = std::max(mj, kv.first.second);
            }
        }
        const Ritz &z = ir->second.at({rl, std::min(j, mj)});
        double x = 1. / ((n - z.d0) * (n - z.d0));
        double big = n + std::abs(z.d0) + x * (std::abs(z.d2) + x * (std::abs(z.d4) + x * (std::abs(z.d6) + x * std::abs(z.d8))));
        double ns = level(sp, n, l, j)->nstar;
        double c = big / std::abs(ns);
        return c * (1 + n / std::abs(n - z.d0));
    }
};
inline std::vector<std::string> fields(const std::string &line) {
    std::vector<std::string> f;
    size_t a = line.find("VALUES(");
    size_t b = line.find(");", a);
    std::string s = line.substr(a + 7, b - a - 7), cur;
    for (char c : s) {
        if (c == ',') {
            f.push_back(cur);
            cur.clear();
        } else if (c != '\'') {
            cur += c;
        }
    }
    f.push_back(cur);
    return f;
}
inline const Db &golden() {
    static const Db db = [] {
        Db d;
        std::ifstream in(std::string(std::getenv("VP_HARNESS")) + "/data/golden_defects.sql");
        std::string line;
        while (std::getline(in, line)) {
            if (line.rfind("INSERT INTO", 0) != 0) {
                continue;
            }
            auto f = fields(line);
            auto D = [&](int k) { return std::strtod(f[k].c_str(), nullptr); };
            if (line.find("model_potential") != std::string::npos) {
                d.pot[f[0]][std::atoi(f[1].c_str())] = Pot{D(2), std::atoi(f[3].c_str()), D(4), D(5), D(6), D(7), D(8)};
            } else {
                d.ritz[f[0]][{std::atoi(f[1].c_str()), D(2)}] = Ritz{D(3), D(4), D(5), D(6), D(7), D(8)};
            }
        }
        return d;
    }();
    return db;
}
inline std::string quote(const std::string &s) {
    std::string o = "'";
    for (char c : s) {
        o += c;
        if (c == '\'') {
            o += c;
        }
    }
    return o + "'";
}
inline std::string num(double x) {
    char b[64];
    std::snprintf(b, sizeof b, "%.17g", x);
    return b;
}
// The database as SQL text; style bit 0: DROP TABLE, bit 1: transaction, bit 2: quoted numbers, bit 3: comments
inline std::string to_sql(const Db &d, int style, bool pot = true, bool ritz = true) {
    std::string o;
    auto q = [&](const std::string &s) { return style & 4 ? "'" + s + "'" : s; };
    if (style & 2) {
        o += "BEGIN TRANSACTION;\n";
    }
    if (style & 8) {
        o += "-- a comment; with 'quotes'\n";
    }
    if (pot) {
        if (style & 1) {
            o += "DROP TABLE IF EXISTS `model_potential`;\n";
        }
        o += "CREATE TABLE `model_potential` ( `element` text,`L` int,`ac` real,`Z` int,`a1` real,`a2` real,`a3` real,`a4` real,`rc` real);\n";
        for (auto &s : d.pot) {
            for (auto &e : s.second) {
                auto &p = e.second;
                o += "INSERT INTO `model_potential` VALUES(" + quote(s.first) + "," + std::to_string(e.first) + "," + q(num(p.ac)) + "," +
                    std::to_string(p.Z) + "," + q(num(p.a1)) + "," + q(num(p.a2)) + "," + q(num(p.a3)) + "," + q(num(p.a4)) + "," + q(num(p.rc)) + ");\n";
            }
        }
    }
    if (ritz) {
        if (style & 1) {
            o += "DROP TABLE IF EXISTS `rydberg_ritz`;\n";
        }
        o += "CREATE TABLE `rydberg_ritz` ( `element` text,`L` int,`J` real,`d0` real,`d2` real,`d4` real,`d6` real,`d8` real,`Ry` real);\n";
        for (auto &s : d.ritz) {
            for (auto &e : s.second) {
                auto &p = e.second;
                o += "INSERT INTO `rydberg_ritz` VALUES(" + quote(s.first) + "," + std::to_string(e.first.first) + "," + q(num(e.first.second)) + "," +
                    q(num(p.d0)) + "," + q(num(p.d2)) + "," + q(num(p.d4)) + "," + q(num(p.d6)) + "," + q(num(p.d8)) + "," + q(num(p.Ry)) + ");\n";
            }
        }
    }
    if (style & 2) {
        o += "COMMIT;\n";
    }
    return o;
}
// A random database.  Half-integer or integer J, gaps in the tables, odd species names.
inline Db gen_db(vp::Src &src, const std::vector<std::string> &names, int minspecies = 0) {
    Db d;
    for (auto &nm : names) {
        if (minspecies-- <= 0 && src.chance(1, 4)) {
            continue;
        }
        int pl = static_cast<int>(src.pick(0, 4));
        for (int l = 0; l <= pl; ++l) {
            if (l < pl && src.chance(1, 10)) {
                continue;
            }
            d.pot[nm][l] = Pot{src.real(0, 16), static_cast<int>(src.pick(1, 60)), src.real(0.5, 5), src.real(0.5, 3), src.sym(20), src.sym(2), src.real(0.5, 5)};
        }
        int rl = static_cast<int>(src.pick(0, 5));
        double s = src.of({0.5, 0.5, 0., 1.});
        for (int l = 0; l <= rl; ++l) {
            for (double j = std::abs(l - s); j <= l + s; j += 1) {
                if (!(l == rl && j + 1 > l + s) && src.chance(1, 10)) {
                    continue;
                }
                Ritz r{src.real(0, 4), src.sym(3), src.sym(3), src.sym(10), src.sym(10), 109737.31568525 - src.real(0, 10)};
                if (src.chance(1, 3)) {
                    r.d4 = r.d6 = r.d8 = 0;
                }
                if (src.chance(1, 10)) {
                    r.d0 = r.d2 = r.d4 = r.d6 = r.d8 = 0;
                }
                d.ritz[nm][{l, j}] = r;
            }
        }
    }
    return d;
}
} // namespace qdm
#endif
