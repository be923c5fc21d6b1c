// C02: the configuration store.
#include "ConfParser.hpp"
#include "vp.hpp"

#include <climits>
#include <cmath>
#include <cstring>
#include <fstream>
#include <limits>
#include <map>

namespace {

std::string gen_text(vp::Src &src, int maxlen) {
    static const std::vector<std::string> atoms = {
        "a",  "b",    "x1", "_",  " ",  ".",  "..", "/",  "\\", "\"", "'",  "{",     "}",
        "[",  "]",    ":",  ",",  "\n", "\t", "\r", "\b", "\f", "#",  "//", "\x01",  "\x7f",
        "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "null", "1e5", "\\u0041", "%s", "@", "Rb", "0.5", "-"};
    std::string s;
    long n = src.size(0, maxlen);
    for (long i = 0; i < n; ++i) {
        s += src.of(atoms);
    }
    return s;
}
std::string gen_key(vp::Src &src) {
    int c = static_cast<int>(src.pick(0, 3));
    if (c <= 1) {
        return src.of({std::string("n1"), std::string("a"), std::string("species1"), std::string("minEx"), std::string("b")});
    }
    if (c == 2) {
        return src.of({std::string("a.b"), std::string("a"), std::string("pair.distance"), std::string("a.b.c"),
                       std::string(""), std::string("."), std::string("key with space")});
    }
    return gen_text(src, 6);
}
double gen_double(vp::Src &src) {
    switch (src.pick(0, 6)) {
    case 0:
        return src.of({0., 1., -1., 0.5, 1.2, 0.1, 1. / 3., 1e300, -1e-300, 123456.7, 1234567.8, 1e15, 1e16,
                       std::numeric_limits<double>::max(), std::numeric_limits<double>::min(), 4.35974417e-18,
                       std::numeric_limits<double>::epsilon()});
    case 1:
        return static_cast<double>(src.pick(-1000000000, 1000000000));
    case 2:
        return src.sym(1e3);
    case 3:
        return 100 + 0.0001 * static_cast<double>(src.pick(0, 1000)); // a dense scan
    case 4: {
        double x = src.logreal(1e-290, 1e290);
        return src.flip() ? -x : x;
    }
    case 5: {
        double x = src.real(1, 2);
        long k = src.pick(0, 30);
        for (long i = 0; i < k; ++i) {
            x = std::nextafter(x, 3);
        }
        return x;
    }
    default:
        return src.sym(1e-6);
    }
}
std::string esc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c < 0x20 || c >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            o += b;
        } else {
            o += static_cast<char>(c);
        }
    }
    return "'" + o + "'";
}

struct Model {
    std::map<std::string, std::string> m;
};
void compare(const Configuration &c, const std::map<std::string, std::string> &m, const char *where) {
    VP_CHECK(c.size() == m.size(), where << ": " << c.size() << " keys instead of " << m.size());
    auto it = m.begin();
    for (auto const &p : c) {
        VP_CHECK(it != m.end() && p.first == it->first && p.second.str() == it->second,
                 where << ": entry " << esc(p.first) << "=" << esc(p.second.str()) << ", expected "
                       << (it == m.end() ? "nothing" : esc(it->first) + "=" + esc(it->second)));
        ++it;
    }
    for (auto const &p : m) {
        VP_CHECK(c.count(p.first) == 1, where << ": count of present key");
        VP_CHECK(c[p.first].str() == p.second, where << ": const access");
        auto f = c.find(p.first);
        VP_CHECK(f != c.end() && f->first == p.first && f->second.str() == p.second, where << ": find");
    }
}
} // namespace

VP_FACET("map-model", 120000, 600000, "history with a merge or a key-to-key copy after at least two sets") {
    std::vector<Configuration> c(2);
    std::vector<std::map<std::string, std::string>> m(2);
    long n = src.size(1, 60);
    int sets = 0, merges = 0;
    for (long i = 0; i < n; ++i) {
        int w = static_cast<int>(src.pick(0, 1));
        std::string k = gen_key(src);
        switch (src.pick(0, 9)) {
        case 0:
        case 1: {
            std::string v = gen_text(src, 8);
            VP_NOTE(w << ":" << esc(k) << "=" << esc(v) << " ");
            if (src.flip()) {
                c[w][k] << v;
            } else {
                v = v.c_str();
                c[w][k] << v.c_str();
            }
            m[w][k] = v;
            ++sets;
            break;
        }
        case 2: {
            int v = static_cast<int>(src.pick(INT_MIN, INT_MAX));
            VP_NOTE(w << ":" << esc(k) << "=int" << v << " ");
            c[w][k] << v;
            m[w][k] = std::to_string(v);
            int back = 0;
            c[w][k] >> back;
            VP_CHECK(back == v, "integer read back");
            int cback = 0;
            const_cast<const Configuration &>(c[w])[k] >> cback;
            VP_CHECK(cback == v, "integer read back (const)");
            cback = 0;
            const auto &value = c[w].find(k)->second;
            value >> cback;
            VP_CHECK(cback == v, "integer read back from a constant");
            ++sets;
            break;
        }
        case 3: {
            std::string k2 = gen_key(src);
            VP_NOTE(w << ":" << esc(k) << "<<" << esc(k2) << " ");
            std::string v = m[1 - w].count(k2) ? m[1 - w][k2] : std::string();
            if (src.flip()) {
                c[w][k] << c[1 - w][k2];
            } else {
                c[1 - w][k2] >> c[w][k];
            }
            m[1 - w][k2] = v; // non-const access inserts
            m[w][k] = v;
            merges += sets > 1;
            break;
        }
        case 4:
            VP_NOTE(w << "+=" << 1 - w << " ");
            c[w] += c[1 - w];
            for (auto &p : m[1 - w]) {
                m[w][p.first] = p.second;
            }
            merges += sets > 1;
            break;
        case 5:
            if (src.chance(1, 3)) {
                VP_NOTE(w << "+=self ");
                c[w] += c[w];
            } else {
                VP_NOTE(w << "=copy ");
                Configuration copy(c[w]);
                copy["only in the copy"] << 1;
                VP_CHECK(!(copy == c[w]) || m[w].count("only in the copy"), "a changed copy compares equal");
                compare(c[w], m[w], "after changing a copy");
            }
            break;
        case 6: {
            const Configuration &cc = c[w];
            bool threw = false;
            try {
                auto v = cc[k];
            } catch (const std::out_of_range &) {
                threw = true;
            }
            VP_CHECK(threw == (m[w].count(k) == 0), "const access to " << esc(k) << (threw ? " threw" : " did not throw"));
            VP_CHECK(cc.count(k) == m[w].count(k), "count");
            VP_CHECK((cc.find(k) == cc.end()) == (m[w].count(k) == 0), "find");
            break;
        }
        case 7: {
            VP_CHECK((c[0] == c[1]) == (m[0] == m[1]), "equality of configurations");
            VP_CHECK((c[1] == c[0]) == (m[0] == m[1]), "equality of configurations (swapped)");
            break;
        }
        case 8: {
            std::string s;
            VP_NOTE(w << ":get" << esc(k) << " ");
            c[w][k] >> s;
            VP_CHECK(s == m[w][k], "text read back " << esc(s));
            // through a constant reference to the value
            const Configuration &cc = c[w];
            const auto &value = cc.find(k)->second;
            std::string t = "x";
            value >> t;
            auto other = c[1 - w]["other"];
            value >> other;
            VP_CHECK(t == m[w][k] && other.str() == m[w][k] && value.str() == m[w][k], "text read back from a constant " << esc(t));
            m[1 - w].emplace("other", ""); // non-const access inserts
            break;
        }
        default: {
            size_t v = static_cast<size_t>(src.choice(UINT64_MAX));
            c[w][k] << v;
            m[w][k] = std::to_string(v);
            size_t back = 0;
            c[w][k] >> back;
            VP_CHECK(back == v, "size read back");
            back = 0;
            const auto &value = c[w].find(k)->second;
            value >> back;
            VP_CHECK(back == v, "size read back from a constant");
            ++sets;
        }
        }
    }
    compare(c[0], m[0], "end");
    compare(c[1], m[1], "end");
    VP_CHECK((c[0] == c[1]) == (m[0] == m[1]), "equality at the end");
    vp::nontrivial(merges > 0);
}

VP_FACET("numbers-exact", 200000, 1000000, "the value needs more than six significant digits") {
    Configuration c;
    double v = gen_double(src);
    VP_NOTE("double " << v);
    c["x"] << v;
    double back = 0;
    c["x"] >> back;
    VP_CHECK(back == v, "stored " << v << ", text '" << c["x"].str() << "', read back " << back);
    const Configuration cc(c);
    double back2 = 0;
    cc["x"] >> back2;
    VP_CHECK(back2 == v, "const read back " << back2);
    float f = static_cast<float>(src.sym(1e4));
    c["f"] << f;
    float fb = 0;
    c["f"] >> fb;
    VP_CHECK(fb == f, "float " << f << " read back as " << fb);
    const Configuration cf(c);
    const auto &xv = cf.find("x")->second, &fv = cf.find("f")->second;
    back2 = fb = 0;
    xv >> back2;
    fv >> fb;
    VP_CHECK(back2 == v && fb == f, "constants read back " << back2 << " " << fb);
    // different numbers give different settings
    double u = std::nextafter(v, 1e308);
    Configuration d;
    d["x"] << u;
    d["f"] << f;
    VP_CHECK(!(c == d), "settings with x=" << v << " and x=" << u << " compare equal");
    char b[40];
    snprintf(b, sizeof b, "%.6g", v);
    vp::nontrivial(std::strtod(b, nullptr) != v);
}

VP_FACET("json-roundtrip", 24000, 500000, "at least two keys, one of them or a value with special characters") {
    Configuration c;
    std::map<std::string, std::string> m;
    long n = src.size(0, 12);
    bool special = false;
    for (long i = 0; i < n; ++i) {
        std::string k = gen_key(src);
        if (src.flip()) {
            std::string v = gen_text(src, 8);
            c[k] << v;
            special = special || v.find_first_not_of("abx1_") != std::string::npos;
        } else {
            c[k] << gen_double(src);
        }
        m[k] = c[k].str();
        special = special || k.find('.') != std::string::npos;
        VP_NOTE(esc(k) << "=" << esc(m[k]) << " ");
    }
    std::string path = vp::scratch() + "/conf" + ".json";
    c.save_to_json(path);
    compare(c, m, "the saved configuration itself");
    Configuration d;
    d.load_from_json(path);
    compare(d, m, "after save and load");
    VP_CHECK(d == c, "loaded configuration differs");
    // loading into a filled configuration merges
    Configuration e;
    auto me = m;
    e["n1"] << "old";
    e["keep me"] << "kept";
    me.emplace("n1", "old");
    me.emplace("keep me", "kept");
    e.load_from_json(path);
    compare(e, me, "after loading into a filled configuration");
    // saving again is stable, also over a longer existing file
    d.save_to_json(path);
    Configuration g;
    g.load_from_json(path);
    VP_CHECK(g == c, "second save and load differs");
    vp::nontrivial(m.size() >= 2 && special);
}

VP_FACET("foreign-json", 8000, 100000, "file with at least two entries of different JSON types") {
    // the front end writes the configuration with Python's json module
    std::ostringstream os;
    std::map<std::string, std::string> m;
    long n = src.pick(0, 10);
    std::string ws = src.of({std::string(""), std::string("\n    "), std::string(" \t")});
    os << "{";
    std::set<int> types;
    for (long i = 0; i < n; ++i) {
        std::string k = "k" + std::to_string(i);
        std::string lit, val;
        int t = static_cast<int>(src.pick(0, 4));
        types.insert(t);
        if (t == 0) {
            lit = val = std::to_string(src.pick(-100000, 100000));
        } else if (t == 1) {
            std::ostringstream o;
            o.precision(17);
            o << gen_double(src);
            lit = val = o.str();
        } else if (t == 2) {
            lit = val = src.flip() ? "true" : "false";
        } else if (t == 3) {
            val = src.of({std::string("Rb"), std::string(""), std::string("a b"), std::string("1.5")});
            lit = "\"" + val + "\"";
        } else {
            val = "\xc3\xa9";
            lit = "\"\\u00e9\"";
        }
        m[k] = val;
        os << (i ? "," : "") << ws << "\"" << k << "\":" << (src.flip() ? " " : "") << lit;
    }
    os << ws << "}";
    VP_NOTE(esc(os.str()));
    std::string path = vp::scratch() + "/foreign.json";
    std::ofstream(path) << os.str();
    Configuration c;
    c.load_from_json(path);
    compare(c, m, "after loading");
    vp::nontrivial(m.size() >= 2 && types.size() >= 2);
}

VP_FACET("unusable-file", 500, 5000, "the file is missing, truncated or not JSON") {
    std::string dir = vp::fresh_dir("conf");
    Configuration c;
    c["a"] << "1";
    int kind = static_cast<int>(src.pick(0, 3));
    VP_NOTE("kind " << kind);
    std::string path = dir + "/x.json";
    if (kind == 1) {
        std::ofstream(path) << "";
    } else if (kind == 2) {
        Configuration d;
        long n = src.pick(1, 6);
        for (long i = 0; i < n; ++i) {
            d["key" + std::to_string(i)] << gen_double(src);
        }
        d.save_to_json(path);
        std::ifstream in(path);
        std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        in.close();
        size_t end = s.rfind('}');
        long cut = src.pick(0, static_cast<long>(end));
        VP_NOTE(" truncated to " << cut << " of " << s.size());
        std::ofstream(path) << s.substr(0, cut);
    } else if (kind == 3) {
        bool threw = vp::throws([&] { c.save_to_json(dir + "/no/such/dir/x.json"); });
        VP_CHECK(threw, "saving to an impossible place was silently ignored");
        vp::nontrivial();
        vp::remove_tree(dir);
        return;
    }
    Configuration before(c);
    bool threw = vp::throws([&] { c.load_from_json(path); });
    VP_CHECK(threw, "loading an unusable file was silently accepted");
    VP_CHECK(c == before, "a failed load changed the configuration");
    vp::nontrivial();
    vp::remove_tree(dir);
}
