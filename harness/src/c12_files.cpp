// C12: stored matrices round-trip, damaged files are detected.
#include "EigenCompat.hpp"
#include "Hamiltonianmatrix.hpp"
#include "vp.hpp"

#include <cstring>
#include <fstream>
#include <iostream>
#include <sys/stat.h>
#include <unistd.h>

namespace {
typedef std::complex<double> cd;
template <typename S>
using Sparse = Eigen::SparseMatrix<S>;
double value(vp::Src &src) {
    switch (src.pick(0, 7)) {
    case 0:
        return src.pick(-3, 3);
    case 1:
        return src.of({-0.0, 1e-310, 5e-324, 1.7976931348623157e308, -1e300, 0.1, 1. / 3});
    case 2:
        return src.of({HUGE_VAL, -HUGE_VAL, std::nan("")});
    case 3:
        return src.sym(1) * src.logreal(1e-20, 1e20);
    default:
        return src.sym(5);
    }
}
template <typename S>
S scalar(vp::Src &src);
template <>
double scalar<double>(vp::Src &src) {
    return value(src);
}
template <>
cd scalar<cd>(vp::Src &src) {
    double re = value(src);
    return cd(re, src.chance(1, 4) ? 0 : value(src));
}
// all sparsity patterns; explicit zeros possible
template <typename S>
Sparse<S> gen(vp::Src &src, int r, int c) {
    Sparse<S> m(r, c);
    std::vector<Eigen::Triplet<S>> t;
    int kind = static_cast<int>(src.pick(0, 6));
    for (int j = 0; j < c; ++j) {
        for (int i = 0; i < r; ++i) {
            bool in = false;
            switch (kind) {
            case 0: // empty
                break;
            case 1: // one entry
                in = t.empty() && src.chance(1, r * c);
                break;
            case 2:
                in = j == c - 1;
                break;
            case 3:
                in = j == 0;
                break;
            case 4:
                in = src.chance(1, 5);
                break;
            case 5:
                in = i == j;
                break;
            default:
                in = true;
            }
            if (in) {
                t.emplace_back(i, j, scalar<S>(src));
            }
        }
    }
    m.setFromTriplets(t.begin(), t.end());
    if (r && c && src.chance(1, 6)) { // entry added later: matrix is not compressed
        m.coeffRef(static_cast<int>(src.pick(0, r - 1)), static_cast<int>(src.pick(0, c - 1))) = scalar<S>(src);
    }
    return m;
}
template <typename S>
Hamiltonianmatrix<S> gen_h(vp::Src &src, int maxn = 12) {
    int n = static_cast<int>(src.size(0, maxn)), c = static_cast<int>(src.size(0, maxn));
    auto e = gen<S>(src, n, n);
    auto b = gen<S>(src, c, n);
    VP_NOTE("entries " << n << "x" << n << " nnz " << e.nonZeros() << ", basis " << c << "x" << n << " nnz " << b.nonZeros());
    return Hamiltonianmatrix<S>(e, b);
}
template <typename S>
bool bits_equal(const S &a, const S &b) {
    auto eq = [](double x, double y) { return std::memcmp(&x, &y, sizeof x) == 0 || (std::isnan(x) && std::isnan(y)); };
    return eq(std::real(a), std::real(b)) && eq(std::imag(a), std::imag(b));
}
template <typename S>
void same(const Sparse<S> &a, const Sparse<S> &b, const std::string &what) {
    VP_CHECK(a.rows() == b.rows() && a.cols() == b.cols(), what << ": " << a.rows() << "x" << a.cols() << " became " << b.rows() << "x" << b.cols());
    VP_CHECK(a.nonZeros() == b.nonZeros(), what << ": " << a.nonZeros() << " stored entries became " << b.nonZeros());
    for (int j = 0; j < a.cols(); ++j) {
        typename Sparse<S>::InnerIterator x(a, j), y(b, j);
        for (; x && y; ++x, ++y) {
            VP_CHECK(x.row() == y.row() && bits_equal<S>(x.value(), y.value()), what << ": column " << j << ", row " << x.row() << "/" << y.row() << " value " << x.value() << " became " << y.value());
        }
        VP_CHECK(!x && !y, what << ": column " << j << " has a different number of entries");
    }
}
template <typename S>
void same(const Hamiltonianmatrix<S> &a, const Hamiltonianmatrix<S> &b, const std::string &what) {
    same<S>(a.entries(), b.entries(), what + ", entries");
    same<S>(a.basis(), b.basis(), what + ", basis");
}
// structure of whatever was accepted; touches all of it
template <typename S>
void consistent(const Sparse<S> &m, const std::string &what) {
    VP_CHECK(m.rows() >= 0 && m.cols() >= 0, what << ": negative size");
    const auto *p = m.outerIndexPtr();
    VP_CHECK(m.cols() == 0 || p[0] == 0, what << ": first column does not start at 0");
    for (int j = 0; j < m.cols(); ++j) {
        VP_CHECK(p[j] <= p[j + 1] && p[j + 1] <= m.data().size(), what << ": column " << j << " has the range " << p[j] << ".." << p[j + 1] << " of " << m.data().size());
        int last = -1;
        for (typename Sparse<S>::InnerIterator it(m, j); it; ++it) {
            VP_CHECK(it.row() > last && it.row() < m.rows(), what << ": column " << j << " contains row " << it.row() << " of " << m.rows());
            last = static_cast<int>(it.row());
        }
    }
}
std::string path(const char *n) {
    static std::string d = vp::fresh_dir("m");
    return d + "/" + n;
}
std::string slurp(const std::string &p) {
    std::ifstream in(p, std::ios::binary);
    std::ostringstream os;
    os << in.rdbuf();
    return os.str();
}
void spit(const std::string &p, const std::string &s) {
    std::ofstream o(p, std::ios::binary | std::ios::trunc);
    o << s;
}
struct Quiet { // the library reports damaged files on cerr/cout
    std::ostringstream sink;
    std::streambuf *a, *b;
    Quiet() : a(std::cerr.rdbuf(sink.rdbuf())), b(std::cout.rdbuf(sink.rdbuf())) {}
    ~Quiet() {
        std::cerr.rdbuf(a);
        std::cout.rdbuf(b);
    }
};
template <typename S>
void roundtrip(vp::Src &src) {
    auto h = gen_h<S>(src);
    const Hamiltonianmatrix<S> orig = h;
    vp::nontrivial(orig.entries().nonZeros() + orig.basis().nonZeros() > 0);
    std::string f = path("r.mat");
    // the target may have been used before
    Hamiltonianmatrix<S> g;
    if (src.flip()) {
        g = gen_h<S>(src);
        if (src.flip()) {
            g.serialize();
        }
    }
    bool file = src.flip();
    if (src.flip()) {
        h.serialize();
    }
    if (file) {
        h.save(f);
        VP_CHECK(g.load(f), "a saved matrix is not readable");
        bytes_t b = h.serialize();
        std::string s = slurp(f);
        VP_CHECK(s.size() == b.size() && std::memcmp(s.data(), b.data(), s.size()) == 0, "file and serialized form differ");
    } else {
        bytes_t b = h.serialize();
        g.deserialize(b);
    }
    same<S>(orig, g, "round trip");
    consistent<S>(g.entries(), "entries");
    consistent<S>(g.basis(), "basis");
    same<S>(orig, h, "the saved object itself");
    VP_CHECK(g.hashEntries() == h.hashEntries() && g.hashBasis() == h.hashBasis(), "hash differs after round trip");
    // and again from the restored object
    std::string f2 = path("r2.mat");
    g.save(f2);
    Hamiltonianmatrix<S> k;
    VP_CHECK(k.load(f2), "a restored matrix cannot be saved and read again");
    same<S>(orig, k, "second round trip");
    // a change after serialization is part of the next file
    if (orig.num_basisvectors() > 0) {
        int n = static_cast<int>(orig.num_basisvectors());
        int i = static_cast<int>(src.pick(0, n - 1));
        Sparse<S> want = orig.entries();
        want.coeffRef(i, i) = S(42);
        want.makeCompressed();
        h.entries().coeffRef(i, i) = S(42);
        h.save(f2);
        Hamiltonianmatrix<S> q;
        VP_CHECK(q.load(f2), "changed matrix not readable");
        same<S>(want, q.entries(), "matrix changed after it was saved");
        same<S>(orig.basis(), q.basis(), "basis after change of the entries");
    }
}

// Histories of operations on one object with good and bad files
template <typename S>
void history(vp::Src &src) {
    Quiet quiet;
    Hamiltonianmatrix<S> h = gen_h<S>(src, 6);
    Sparse<S> E = h.entries(), B = h.basis();
    std::map<std::string, std::pair<Sparse<S>, Sparse<S>>> files;
    std::set<std::string> bad;
    std::string dir = vp::fresh_dir("h");
    std::ostringstream tr;
    long steps = src.pick(1, 24);
    bool usedbad = false, usedgood = false;
    auto name = [&] { return dir + "/" + std::string(1, static_cast<char>('a' + src.pick(0, 1))) + ".mat"; };
    for (long t = 0; t < steps; ++t) {
        switch (src.of({0, 1, 2, 3, 4, 5, 6, 7, 0, 1, 1, 0, 2, 1})) {
        case 0: {
            auto f = name();
            tr << " save(" << f.back() << f[f.size() - 5] << ")";
            h.save(f);
            files[f] = {E, B};
            bad.erase(f);
            break;
        }
        case 1: {
            auto f = name();
            bool ok = h.load(f);
            tr << " load(" << f[f.size() - 5] << ")=" << ok;
            if (files.count(f)) {
                VP_CHECK(ok, tr.str() << ": a saved matrix is not readable");
                E = files[f].first;
                B = files[f].second;
                usedgood = true;
            } else {
                VP_CHECK(!ok, tr.str() << ": a missing or truncated file was accepted");
                usedbad = true;
            }
            break;
        }
        case 2: {
            auto f = name();
            if (files.count(f)) {
                std::string s = slurp(f);
                long cut = src.pick(0, static_cast<long>(s.size()) - 1);
                spit(f, s.substr(0, cut));
                files.erase(f);
                bad.insert(f);
                tr << " truncate(" << f[f.size() - 5] << "," << cut << "/" << s.size() << ")";
            }
            break;
        }
        case 3: {
            auto f = name();
            unlink(f.c_str());
            files.erase(f);
            bad.erase(f);
            tr << " delete(" << f[f.size() - 5] << ")";
            break;
        }
        case 4: {
            tr << " new";
            h = gen_h<S>(src, 6);
            E = h.entries();
            B = h.basis();
            break;
        }
        case 5: {
            tr << " save to a missing directory";
            VP_CHECK(vp::throws([&] { h.save(dir + "/none/x.mat"); }), tr.str() << ": a file that cannot be written is not reported");
            break;
        }
        case 6: {
            // bytes of the other scalar type
            Hamiltonianmatrix<typename std::conditional<std::is_same<S, double>::value, cd, double>::type> o =
                gen_h<typename std::conditional<std::is_same<S, double>::value, cd, double>::type>(src, 4);
            bytes_t b = o.serialize();
            tr << " bytes of the other type";
            VP_CHECK(vp::throws([&] { h.deserialize(b); }), tr.str() << ": data of the other scalar type accepted");
            usedbad = true;
            break;
        }
        default: {
            int n = static_cast<int>(h.num_basisvectors());
            if (n) {
                int i = static_cast<int>(src.pick(0, n - 1));
                double v = src.pick(1, 9);
                h.entries().coeffRef(i, i) = S(v);
                E.coeffRef(i, i) = S(v);
                tr << " set(" << i << ")";
            }
        }
        }
        E.makeCompressed();
        B.makeCompressed();
        const Hamiltonianmatrix<S> &view = h; // reading alone must not change what is stored
        Sparse<S> e = view.entries(), b = view.basis();
        e.makeCompressed();
        b.makeCompressed();
        if (src.chance(1, 3)) { // judge the stored form as well
            bytes_t x = h.serialize();
            Hamiltonianmatrix<S> g;
            g.deserialize(x);
            same<S>(E, g.entries(), tr.str() + " -> serialized entries");
            same<S>(B, g.basis(), tr.str() + " -> serialized basis");
        }
        same<S>(E, e, tr.str() + " -> entries");
        same<S>(B, b, tr.str() + " -> basis");
    }
    VP_NOTE(tr.str());
    vp::nontrivial(usedbad && usedgood);
    vp::remove_tree(dir);
}
// A matrix that is changed between two saves: every file contains the matrix as it was when it was written
template <typename S>
Hamiltonianmatrix<S> gen_hermitian(vp::Src &src, int n, int c) {
    Eigen::MatrixX<S> d = Eigen::MatrixX<S>::Zero(n, n), b = Eigen::MatrixX<S>::Zero(c, n);
    auto num = [&] {
        double re = src.pick(-8, 8) / 4.;
        if constexpr (std::is_same<S, double>::value) {
            return re;
        } else {
            return S(re, src.pick(-8, 8) / 4.);
        }
    };
    for (int i = 0; i < n; ++i) {
        d(i, i) = src.pick(-8, 8) / 2.;
        for (int j = 0; j < i; ++j) {
            if (src.chance(1, 3)) {
                d(i, j) = num();
                d(j, i) = Eigen::numext::conj(d(i, j));
            }
        }
    }
    bool plain = src.flip();
    for (int i = 0; i < n; ++i) {
        if (plain) {
            b(i % c, i) = 1;
        } else {
            for (int j = 0; j < c; ++j) {
                if (src.chance(1, 2)) {
                    b(j, i) = num();
                }
            }
        }
    }
    return Hamiltonianmatrix<S>(d.sparseView(), b.sparseView());
}
template <typename S>
void rewrite(vp::Src &src) {
    int n = static_cast<int>(src.pick(1, 6)), c = n + static_cast<int>(src.pick(0, 2));
    Hamiltonianmatrix<S> h = gen_hermitian<S>(src, n, c);
    std::string f = path("w.mat");
    std::ostringstream tr;
    bool written = false, changed = false;
    for (long t = src.pick(1, 10); t > 0; --t) {
        const Hamiltonianmatrix<S> &view = h;
        int nb = static_cast<int>(view.num_basisvectors()), nc = static_cast<int>(view.num_coordinates());
        Sparse<S> before_e = view.entries(), before_b = view.basis();
        int op = static_cast<int>(src.pick(0, 15));
        if (nb == 0 || nc == 0) {
            op = 0;
        }
        std::vector<bool> mask(nc);
        switch (op) {
        case 0:
            tr << " =new";
            h = gen_hermitian<S>(src, n, c);
            break;
        case 1:
            tr << " +=";
            h += gen_hermitian<S>(src, nb, nc);
            break;
        case 2:
            tr << " -=";
            h -= gen_hermitian<S>(src, nb, nc);
            break;
        case 3:
            tr << " h+o";
            h = h + gen_hermitian<S>(src, nb, nc);
            break;
        case 4:
            tr << " h-o";
            h = h - gen_hermitian<S>(src, nb, nc);
            break;
        case 5:
            tr << " 3*h";
            h = S(3) * h;
            break;
        case 6:
            tr << " h*-0.5";
            h = h * S(-0.5);
            break;
        case 7:
            tr << " cutoff";
            h.applyCutoff(src.pick(1, 10) / 2.);
            break;
        case 8:
            tr << " removeBasisvectors";
            h.removeUnnecessaryBasisvectors();
            break;
        case 9:
        case 10:
            for (auto &&m : mask) {
                m = !src.chance(1, 3);
            }
            if (op == 9) {
                tr << " removeBasisvectors(mask)";
                h.removeUnnecessaryBasisvectors(mask);
            } else {
                tr << " removeStates(mask)";
                h.removeUnnecessaryStates(mask);
            }
            break;
        case 11:
            tr << " diagonalize";
            h.diagonalize();
            break;
        case 12:
            tr << " abs";
            h = h.abs();
            break;
        case 13: {
            tr << " compress";
            int m = static_cast<int>(src.pick(1, 4));
            for (int i = 0; i < m; ++i) {
                h.addBasis(i, i, S(1));
                h.addEntries(i, i, S(src.pick(1, 9)));
            }
            h.compress(m, m + 1);
            break;
        }
        case 14:
            tr << " basis*2";
            h.basis() *= S(2);
            break;
        default:
            tr << " block";
            std::vector<ptrdiff_t> idx;
            for (int i = 0; i < nb; ++i) {
                if (src.flip()) {
                    idx.push_back(i);
                }
            }
            h = h.getBlock(idx);
        }
        if (written && (before_e.nonZeros() != view.entries().nonZeros() || before_b.nonZeros() != view.basis().nonZeros() || before_e.rows() != view.entries().rows() || (before_e.rows() == view.entries().rows() && (before_e - view.entries()).norm() > 0))) {
            changed = true;
        }
        if (src.chance(2, 3) || t == 1) {
            tr << " save";
            Sparse<S> e = view.entries(), b = view.basis();
            e.makeCompressed();
            b.makeCompressed();
            if (src.flip()) {
                h.save(f);
                Hamiltonianmatrix<S> g;
                VP_CHECK(g.load(f), tr.str() << ": not readable");
                same<S>(e, g.entries(), tr.str() + " -> entries in the file");
                same<S>(b, g.basis(), tr.str() + " -> basis in the file");
            } else {
                bytes_t x = h.serialize();
                Hamiltonianmatrix<S> g;
                g.deserialize(x);
                same<S>(e, g.entries(), tr.str() + " -> entries in the serialized form");
                same<S>(b, g.basis(), tr.str() + " -> basis in the serialized form");
            }
            written = true;
        }
    }
    VP_NOTE(n << "x" << n << ":" << tr.str());
    vp::nontrivial(changed);
}
// Every truncation point of one file
template <typename S>
void truncation(vp::Src &src) {
    auto h = gen_h<S>(src, 5);
    const Hamiltonianmatrix<S> orig = h;
    bytes_t b = h.serialize();
    Quiet quiet;
    std::string f = path("t.mat");
    Hamiltonianmatrix<S> keep = orig;
    bool file = src.chance(1, 4);
    size_t step = file ? 1 + b.size() / 60 : 1;
    for (size_t cut = 0; cut < b.size(); cut += step) {
        bytes_t c(b.begin(), b.begin() + cut);
        if (file) {
            spit(f, std::string(c.begin(), c.end()));
            VP_CHECK(!keep.load(f), "file of " << b.size() << " bytes truncated to " << cut << " was accepted");
        } else {
            VP_CHECK(vp::throws([&] { keep.deserialize(c); }), "data of " << b.size() << " bytes truncated to " << cut << " was accepted");
        }
    }
    same<S>(orig, keep, "object after failed reads");
    Hamiltonianmatrix<S> g;
    bytes_t again = keep.serialize();
    g.deserialize(again);
    same<S>(orig, g, "object after failed reads, saved again");
    vp::nontrivial(b.size() > 0);
}
template <typename S>
void corruption(vp::Src &src) {
    auto h = gen_h<S>(src, 6);
    bytes_t b = h.serialize();
    std::vector<byte_t> c(b.begin(), b.end());
    long k = src.size(1, 6);
    std::ostringstream tr;
    auto at = [&] { return c.empty() ? 0 : src.pick(0, static_cast<long>(c.size()) - 1); };
    for (long t = 0; t < k; ++t) {
        long i = at();
        switch (src.pick(0, 7)) {
        case 0:
            if (!c.empty()) {
                c[i] ^= static_cast<byte_t>(1 << src.pick(0, 7));
                tr << " flip@" << i;
            }
            break;
        case 1:
            if (!c.empty()) {
                c[i] = static_cast<byte_t>(src.of({0x00, 0xff, 0x7f, 0x80, 0x01}));
                tr << " set@" << i;
            }
            break;
        case 2: {
            long n = src.size(1, 16);
            for (long u = 0; u < n; ++u) {
                c.insert(c.begin() + i, static_cast<byte_t>(src.choice(255)));
            }
            tr << " insert" << n << "@" << i;
            break;
        }
        case 3: {
            long n = std::min<long>(src.size(1, 16), static_cast<long>(c.size()) - i);
            c.erase(c.begin() + i, c.begin() + i + n);
            tr << " erase" << n << "@" << i;
            break;
        }
        case 4: { // a large or negative 32/64 bit number
            static const uint64_t vals[] = {0xffffffffffffffffULL, 0x7fffffffULL, 0x80000000ULL, 0x8000000000000000ULL, 0x20000000ULL, 0x2000000000000000ULL, 0x1fffffffffffffffULL, 0x10000ULL, 2, 1, 0};
            uint64_t v = vals[src.pick(0, 10)];
            size_t n = src.flip() ? 4 : 8;
            if (i + n <= c.size()) {
                std::memcpy(&c[i], &v, n);
                tr << " number@" << i;
            }
            break;
        }
        case 5: { // copy a block
            long j = at(), n = src.size(1, 24);
            for (long u = 0; u < n && i + u < static_cast<long>(c.size()) && j + u < static_cast<long>(c.size()); ++u) {
                c[i + u] = c[j + u];
            }
            tr << " copy" << n << " " << j << "->" << i;
            break;
        }
        case 6: { // type markers are 16 bit numbers
            static const uint16_t ids[] = {1008, 1016, 1032, 1064, 1108, 1116, 1132, 1164, 2032, 2064, 0, 65535};
            uint16_t v = ids[src.pick(0, 11)];
            // positions of markers: search
            std::vector<long> pos;
            for (long u = 0; u + 2 <= static_cast<long>(c.size()); ++u) {
                uint16_t x;
                std::memcpy(&x, &c[u], 2);
                for (uint16_t id : ids) {
                    if (id && id != 65535 && x == id) {
                        pos.push_back(u);
                    }
                }
            }
            if (!pos.empty()) {
                long u = pos[src.pick(0, static_cast<long>(pos.size()) - 1)];
                std::memcpy(&c[u], &v, 2);
                tr << " type" << v << "@" << u;
            }
            break;
        }
        default: {
            // numbers following a marker of a 32 or 64 bit type: sizes and indices
            std::vector<long> pos;
            for (long u = 0; u + 6 <= static_cast<long>(c.size()); ++u) {
                uint16_t x;
                std::memcpy(&x, &c[u], 2);
                if (x == 1032 || x == 1064 || x == 1132 || x == 1164) {
                    pos.push_back(u + 2);
                }
            }
            if (!pos.empty()) {
                long u = pos[src.pick(0, static_cast<long>(pos.size()) - 1)] + 4 * src.pick(0, 5);
                if (u + 4 <= static_cast<long>(c.size())) {
                    int32_t v;
                    std::memcpy(&v, &c[u], 4);
                    v = static_cast<int32_t>(static_cast<int64_t>(v) + src.pick(0, 4) - 2);
                    std::memcpy(&c[u], &v, 4);
                    tr << " shift@" << u;
                }
            }
        }
        }
    }
    VP_NOTE(tr.str());
    Quiet quiet;
    Hamiltonianmatrix<S> g = h;
    const Hamiltonianmatrix<S> before = h;
    bool ok;
    if (src.chance(1, 3)) {
        std::string f = path("c.mat");
        spit(f, std::string(c.begin(), c.end()));
        ok = g.load(f);
    } else {
        bytes_t d(c.begin(), c.end());
        ok = !vp::throws([&] { g.deserialize(d); });
    }
    vp::label(ok ? "accepted" : "rejected");
    vp::nontrivial();
    if (!ok) {
        same<S>(before, g, "object after a rejected read");
        bytes_t x = g.serialize();
        Hamiltonianmatrix<S> r;
        r.deserialize(x);
        same<S>(before, r, "object after a rejected read, saved again");
        return;
    }
    consistent<S>(g.entries(), "accepted entries");
    consistent<S>(g.basis(), "accepted basis");
    if (g.entries().rows() < 1000 && g.basis().rows() < 1000) {
        Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> x(g.entries()), y(g.basis()); // touches everything
        (void)x;
        (void)y;
    }
    // what was accepted is what is stored again
    Sparse<S> e = g.entries(), s = g.basis();
    g.entries(); // forget the bytes
    bytes_t x = g.serialize();
    Hamiltonianmatrix<S> r;
    r.deserialize(x);
    same<S>(e, r.entries(), "accepted entries, saved again");
    same<S>(s, r.basis(), "accepted basis, saved again");
}
} // namespace

VP_FACET("roundtrip-real", 6000, 100000, "at least one stored entry") { roundtrip<double>(src); }
VP_FACET("roundtrip-complex", 6000, 100000, "at least one stored entry") { roundtrip<cd>(src); }
VP_FACET("history-real", 4000, 60000, "the object read a good and a bad file") { history<double>(src); }
VP_FACET("history-complex", 4000, 60000, "the object read a good and a bad file") { history<cd>(src); }
VP_FACET("rewrite", 6000, 100000, "the matrix was changed after it had been written once") { if (src.flip()) { rewrite<cd>(src); } else { rewrite<double>(src); } }
VP_FACET("truncation", 600, 8000, "always") { if (src.flip()) { truncation<cd>(src); } else { truncation<double>(src); } }
VP_FACET("corruption", 40000, 800000, "always") { if (src.flip()) { corruption<cd>(src); } else { corruption<double>(src); } }

// Large matrices: indices beyond 16 bit
VP_FACET("large", 16, 100, "always") {
    int n = static_cast<int>(src.pick(60000, 150000));
    VP_NOTE("n=" << n);
    std::vector<Eigen::Triplet<double>> t, b;
    for (int i = 0; i < n; ++i) {
        t.emplace_back(i, i, i * 0.5);
        b.emplace_back(n - 1 - i, i, 1);
        if (i % 7 == 0) {
            t.emplace_back(i / 2, i, -i);
        }
    }
    Sparse<double> e(n, n), s(n + 5, n);
    e.setFromTriplets(t.begin(), t.end());
    s.setFromTriplets(b.begin(), b.end());
    Hamiltonianmatrix<double> h(e, s), g;
    h.save(path("l.mat"));
    VP_CHECK(g.load(path("l.mat")), "large matrix not readable");
    same<double>(e, g.entries(), "large entries");
    same<double>(s, g.basis(), "large basis");
    vp::nontrivial();
}

// For the Python reader: "<r|c> <path>\n" then for entries and basis "rows cols nnz" and "i j re im" (hexfloat)
int vp_helper() {
    std::string type, f;
    while (std::cin >> type >> f) {
        auto run = [&](auto zero) {
            typedef decltype(zero) S;
            Sparse<S> m[2];
            for (auto &x : m) {
                long r, c, nnz;
                std::cin >> r >> c >> nnz;
                std::vector<Eigen::Triplet<S>> t;
                for (long k = 0; k < nnz; ++k) {
                    int i, j;
                    std::string re, im;
                    std::cin >> i >> j >> re >> im;
                    S v = S(std::strtod(re.c_str(), nullptr));
                    if constexpr (!std::is_same<S, double>::value) {
                        v = S(std::strtod(re.c_str(), nullptr), std::strtod(im.c_str(), nullptr));
                    }
                    t.emplace_back(i, j, v);
                }
                x.resize(r, c);
                x.setFromTriplets(t.begin(), t.end());
            }
            Hamiltonianmatrix<S>(m[0], m[1]).save(f);
        };
        if (type == "r") {
            run(double());
        } else {
            run(cd());
        }
        std::cout << "ok" << std::endl;
    }
    return 0;
}
