// C27: helper functions of utils.hpp against their definitions.
#include "utils.hpp"
#include "vp.hpp"

#include <array>
#include <atomic>
#include <limits>
#include <sys/wait.h>
#include <thread>
#include <unordered_set>

namespace {
// FNV-1a, written from the published definition with wide arithmetic
uint64_t fnv(const std::vector<uint8_t> &b) {
    unsigned __int128 h = (static_cast<unsigned __int128>(0xcbf29ce4u) << 32) + 0x84222325u;
    const unsigned __int128 prime = (static_cast<unsigned __int128>(1) << 40) + 0x1b3;
    const unsigned __int128 mask = ~static_cast<uint64_t>(0);
    for (uint8_t x : b) {
        h = (h ^ x) & mask;
        h = (h * prime) & mask;
    }
    return static_cast<uint64_t>(h);
}
std::vector<uint8_t> bytes(vp::Src &src, size_t n) {
    std::vector<uint8_t> b(n);
    int style = static_cast<int>(src.pick(0, 3));
    for (auto &x : b) {
        x = style == 0 ? 0 : style == 1 ? 255 : style == 2 ? static_cast<uint8_t>(src.pick(0, 255)) : static_cast<uint8_t>(src.of({0, 1, 0x80, 0x7f, 0xff}));
    }
    return b;
}
uint64_t lib(const std::vector<uint8_t> &b) {
    std::vector<uint8_t> copy(b); // exact size on the heap: an access beyond the end is seen by the sanitizer
    uint64_t h = utils::FNV64(copy.data(), copy.size());
    VP_CHECK(copy == b, "the checksum modified its input");
    return h;
}
} // namespace

VP_FACET("checksum", 30000, 600000, "at least two bytes") {
    size_t n = static_cast<size_t>(src.size(0, 300));
    auto b = bytes(src, n);
    VP_NOTE(n << " bytes");
    uint64_t h = lib(b);
    VP_NOTE(", checksum " << h);
    VP_CHECK(h == fnv(b), "checksum of " << n << " bytes is " << h << " instead of " << fnv(b));
    VP_CHECK(h == lib(b), "checksum differs on repetition");
    if (n > 0) {
        auto c = b;
        size_t k = src.pick(0, static_cast<long long>(n) - 1);
        c[k] ^= static_cast<uint8_t>(src.pick(1, 255));
        VP_CHECK(lib(c) != h, "changing byte " << k << " of " << n << " does not change the checksum");
    }
    vp::nontrivial(n >= 2);
}

namespace {
template <typename T>
void ranges(vp::Src &src, const char *name) {
    T lo, hi;
    const T mn = std::numeric_limits<T>::min(), mx = std::numeric_limits<T>::max();
    switch (src.pick(0, 5)) {
    case 0: // small
        lo = static_cast<T>(std::is_signed<T>::value ? src.pick(-20, 20) : src.pick(0, 40));
        hi = static_cast<T>(lo + static_cast<T>(src.pick(0, 12)));
        break;
    case 1:
        lo = hi = static_cast<T>(src.choice(UINT64_MAX));
        break;
    case 2:
        lo = mn;
        hi = static_cast<T>(mn + static_cast<T>(src.pick(0, 12)));
        break;
    case 3:
        hi = mx;
        lo = static_cast<T>(mx - static_cast<T>(src.pick(0, 12)));
        break;
    case 4:
        lo = mn;
        hi = mx;
        break;
    default:
        lo = static_cast<T>(src.choice(UINT64_MAX));
        hi = static_cast<T>(src.choice(UINT64_MAX));
        if (hi < lo) {
            std::swap(lo, hi);
        }
    }
    VP_NOTE(name << " [" << +lo << "," << +hi << "]");
    using U = typename std::make_unsigned<T>::type;
    U width = static_cast<U>(static_cast<U>(hi) - static_cast<U>(lo));
    bool small = width <= 12;
    std::set<T> seen;
    int below = 0, n = small ? (static_cast<int>(width) + 1) * 45 : 200;
    for (int i = 0; i < n; ++i) {
        T v = utils::randint(lo, hi);
        VP_CHECK(v >= lo && v <= hi, "random integer " << +v << " outside of [" << +lo << "," << +hi << "]");
        seen.insert(v);
        below += static_cast<U>(static_cast<U>(v) - static_cast<U>(lo)) <= width / 2;
    }
    if (small) { // a value is missed with probability below 13*exp(-45)
        VP_CHECK(seen.size() == static_cast<size_t>(width) + 1, "only " << seen.size() << " of " << +width + 1 << " values appear in " << n << " draws");
    } else { // both halves of a wide range are used (probability of failure below 1e-20)
        VP_CHECK(below > 20 && below < 180, below << " of 200 draws in the lower half");
    }
    vp::nontrivial(width > 0);
}
} // namespace
VP_FACET("randint", 12000, 200000, "the range has more than one value") {
    switch (src.pick(0, 6)) {
    case 0:
        ranges<int>(src, "int");
        break;
    case 1:
        ranges<long>(src, "long");
        break;
    case 2:
        ranges<short>(src, "short");
        break;
    case 3:
        ranges<unsigned>(src, "unsigned");
        break;
    case 4:
        ranges<unsigned long>(src, "unsigned long");
        break;
    case 5:
        ranges<unsigned short>(src, "unsigned short");
        break;
    default:
        ranges<long long>(src, "long long");
    }
}
VP_FACET("randint-threads", 60, 600, "several threads draw") {
    int n = static_cast<int>(src.pick(2, 5));
    std::vector<std::vector<unsigned long>> v(n);
    std::vector<std::thread> ts;
    std::atomic<int> ready{0};
    for (int t = 0; t < n; ++t) {
        ts.emplace_back([&, t] {
            ++ready;
            while (ready < n) {
            }
            for (int i = 0; i < 2000; ++i) {
                v[t].push_back(utils::randint<unsigned long>(0, std::numeric_limits<unsigned long>::max()));
            }
        });
    }
    for (auto &t : ts) {
        t.join();
    }
    VP_NOTE(n << " threads");
    // the default engine has a period of 2^31-2, so equal single numbers may occur, equal streams may not
    for (int a = 0; a < n; ++a) {
        for (int b = 0; b < a; ++b) {
            VP_CHECK(v[a] != v[b], "two threads draw the same sequence");
        }
        std::set<unsigned long> s(v[a].begin(), v[a].end());
        VP_CHECK(s.size() > 1990, "only " << s.size() << " different numbers in 2000 draws of a thread");
    }
    vp::nontrivial();
}

VP_FACET("numbers", 20000, 400000, "the number has an imaginary part") {
    auto gen = [&]() -> double {
        switch (src.pick(0, 7)) {
        case 0:
            return 0.;
        case 1:
            return -0.;
        case 2:
            return std::numeric_limits<double>::infinity();
        case 3:
            return std::numeric_limits<double>::denorm_min();
        case 4:
            return src.sym(1e300);
        default:
            return src.sym(10);
        }
    };
    auto same = [](double a, double b) { return a == b && std::signbit(a) == std::signbit(b); };
    double x = gen(), y = gen();
    std::complex<double> z(x, y);
    VP_NOTE(z);
    auto c = utils::conjugate(z);
    VP_CHECK(same(c.real(), x) && same(c.imag(), -y), "conjugate of " << z << " is " << c);
    VP_CHECK(same(utils::conjugate(x), x), "conjugate of " << x << " is " << utils::conjugate(x));
    VP_CHECK(same(utils::convert<double>(z), x), "real value of " << z << " is " << utils::convert<double>(z));
    VP_CHECK(same(utils::convert<double>(x), x), "conversion changed " << x);
    auto zz = utils::convert<std::complex<double>>(z);
    VP_CHECK(same(zz.real(), x) && same(zz.imag(), y), "complex conversion of " << z << " is " << zz);
    auto zx = utils::convert<std::complex<double>>(x);
    VP_CHECK(same(zx.real(), x) && zx.imag() == 0, "complex conversion of " << x << " is " << zx);
    std::complex<float> zf(static_cast<float>(x), static_cast<float>(y));
    VP_CHECK(same(utils::convert<float>(zf), zf.real()) && same(utils::conjugate(zf).imag(), -zf.imag()), "single precision " << zf);
    static_assert(utils::is_complex<std::complex<double>>::value && utils::is_complex<std::complex<float>>::value && !utils::is_complex<double>::value && !utils::is_complex<int>::value, "is_complex");
    auto i = utils::imaginary_unit<std::complex<double>>();
    VP_CHECK(i.real() == 0 && i.imag() == 1, "imaginary unit is " << i);
    VP_CHECK(vp::throws([] { utils::imaginary_unit<double>(); }), "there is a real imaginary unit");
    VP_CHECK(vp::throws([] { utils::imaginary_unit<float>(); }), "there is a real imaginary unit");
    // truth of arrays
    size_t n = src.pick(0, 6);
    std::vector<bool> v(n);
    std::vector<int> w(n);
    bool all = true;
    for (size_t k = 0; k < n; ++k) {
        v[k] = !src.chance(1, 4);
        w[k] = v[k] ? 1 : 0;
        all = all && v[k];
    }
    VP_CHECK(utils::is_true(v) == all && utils::is_true(w) == all, "truth of " << vp::show(w) << " is " << utils::is_true(v));
    std::array<bool, 3> a{{src.flip(), src.flip(), src.flip()}};
    VP_CHECK(utils::is_true(a) == (a[0] && a[1] && a[2]), "truth of an array");
    VP_CHECK(utils::is_true(true) && !utils::is_true(false), "truth of a bool");
    vp::nontrivial(y != 0);
}

VP_FACET("hashing", 4000, 60000, "at least two different elements") {
    size_t n = static_cast<size_t>(src.pick(0, 8));
    int style = static_cast<int>(src.pick(0, 2));
    std::vector<double> v;
    for (size_t i = 0; i < n; ++i) {
        v.push_back(style == 0 ? static_cast<double>(src.pick(-3, 60)) : style == 1 ? src.pick(-20, 20) / 2. : src.sym(100));
    }
    VP_NOTE(vp::show(v));
    std::vector<double> copy = v;
    for (auto &x : copy) { // equal values have equal hashes
        x = x == 0 && src.flip() ? -0. : x;
    }
    size_t h = utils::hash_range(v.begin(), v.end());
    VP_CHECK(h == utils::hash_range(copy.begin(), copy.end()), "equal sequences have different hashes");
    size_t seed = 0;
    for (auto &x : v) {
        utils::hash_combine(seed, x);
    }
    VP_CHECK(seed == h, "hash of a range differs from combining its elements one by one");
    std::array<double, 3> a{{0, 0, 0}}, b{{0, 0, 0}};
    for (size_t i = 0; i < 3 && i < n; ++i) {
        a[i] = b[i] = v[i];
    }
    VP_CHECK(utils::hash<decltype(a)>()(a) == utils::hash<decltype(a)>()(b) && utils::hash<decltype(a)>()(a) == utils::hash_range(b.begin(), b.end()), "equal arrays have different hashes");
    if (n > 0) {
        std::complex<double> z(v[0], v[n - 1]), y(copy[0], copy[n - 1]);
        VP_CHECK(utils::hash<std::complex<double>>()(z) == utils::hash<std::complex<double>>()(y), "equal complex numbers have different hashes");
    }
    // order and every element matter: collisions must be rare among many derived sequences
    if (n >= 2) {
        int tried = 0, hit = 0;
        for (size_t i = 0; i < n; ++i) {
            for (size_t k = 0; k < i; ++k) {
                if (v[i] != v[k]) {
                    auto w = v;
                    std::swap(w[i], w[k]);
                    ++tried;
                    hit += utils::hash_range(w.begin(), w.end()) == h;
                }
            }
            auto w = v;
            w[i] += 1;
            ++tried;
            hit += utils::hash_range(w.begin(), w.end()) == h;
            w = v;
            w.erase(w.begin() + static_cast<long>(i));
            ++tried;
            hit += utils::hash_range(w.begin(), w.end()) == h;
        }
        VP_CHECK(hit * 4 <= tried, hit << " of " << tried << " modified sequences have the same hash");
        // the same holds for the two parts of complex numbers
        utils::hash<std::complex<double>> chash;
        int ctried = 0, chit = 0;
        for (size_t i = 0; i < n; ++i) {
            for (size_t k = 0; k < i; ++k) {
                if (v[i] == v[k]) {
                    continue;
                }
                auto z = chash({v[i], v[k]});
                for (auto const &o : {std::complex<double>(v[k], v[i]), std::complex<double>(v[i] + 1, v[k]), std::complex<double>(v[i], v[k] + 1)}) {
                    ++ctried;
                    chit += chash(o) == z;
                }
            }
        }
        VP_CHECK(chit * 4 <= ctried, chit << " of " << ctried << " modified complex numbers have the same hash");
        vp::nontrivial(std::set<double>(v.begin(), v.end()).size() > 1);
    }
}

VP_FACET("hash-spread", 40, 400, "distinct keys of the kind used by the caches") {
    // arrays of small integers and half-integers, as in the keys of the matrix element cache
    std::unordered_set<size_t> hashes;
    size_t keys = 0;
    int n0 = static_cast<int>(src.pick(1, 80)), l0 = static_cast<int>(src.pick(0, 5));
    for (int n = n0; n < n0 + 6; ++n) {
        for (int k = n0; k < n0 + 6; ++k) {
            for (int l = l0; l < l0 + 4; ++l) {
                for (int j = 0; j < 4; ++j) {
                    size_t seed = 0;
                    utils::hash_combine(seed, std::array<int, 2>{{n, k}});
                    utils::hash_combine(seed, l);
                    utils::hash_combine(seed, static_cast<float>(j + 0.5));
                    hashes.insert(seed);
                    ++keys;
                }
            }
        }
    }
    VP_NOTE("n from " << n0 << ", l from " << l0);
    VP_CHECK(hashes.size() * 10 >= keys * 8, "only " << hashes.size() << " different hashes for " << keys << " different keys");
    vp::nontrivial();
}

VP_FACET("process", 20, 100, "a child process") {
    VP_CHECK(utils::get_pid() == static_cast<long>(::getpid()), "process number");
    pid_t p = fork();
    if (p == 0) {
        _exit(utils::get_pid() == static_cast<long>(::getpid()) ? 0 : 1);
    }
    int st = 0;
    waitpid(p, &st, 0);
    VP_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "process number in a child process");
    vp::nontrivial();
}
