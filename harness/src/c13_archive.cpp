// C13: matrices, states, caches and systems are restored exactly from archives.
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/archives/xml.hpp>
#include <cereal/types/memory.hpp>
#include <cereal/types/string.hpp>
#include <cereal/types/vector.hpp>

#include "StateOld.hpp"
#include "sysseen.hpp"

#include <cstring>
#include <functional>

namespace {
using sm::cd;
using sm::Mat;
using sm::One;
using sm::Quiet;
using sm::Vec3;
const double FAR = std::numeric_limits<double>::max();

enum Kind { BINARY, PORTABLE, JSON, XML };
const char *const KIND[] = {"binary", "portable", "json", "xml"};

template <typename T>
std::string save(Kind kind, T &x) {
    std::ostringstream os;
    switch (kind) {
    case BINARY: {
        cereal::BinaryOutputArchive ar(os);
        ar << cereal::make_nvp("x", x);
        break;
    }
    case PORTABLE: {
        cereal::PortableBinaryOutputArchive ar(os);
        ar << cereal::make_nvp("x", x);
        break;
    }
    case JSON: {
        cereal::JSONOutputArchive ar(os);
        ar << cereal::make_nvp("x", x);
        break;
    }
    default: {
        cereal::XMLOutputArchive ar(os);
        ar << cereal::make_nvp("x", x);
    }
    }
    return os.str();
}
template <typename T>
void load(Kind kind, const std::string &data, T &x) {
    std::istringstream is(data);
    switch (kind) {
    case BINARY: {
        cereal::BinaryInputArchive ar(is);
        ar >> cereal::make_nvp("x", x);
        break;
    }
    case PORTABLE: {
        cereal::PortableBinaryInputArchive ar(is);
        ar >> cereal::make_nvp("x", x);
        break;
    }
    case JSON: {
        cereal::JSONInputArchive ar(is);
        ar >> cereal::make_nvp("x", x);
        break;
    }
    default: {
        cereal::XMLInputArchive ar(is);
        ar >> cereal::make_nvp("x", x);
    }
    }
}
Kind gen_kind(vp::Src &src) {
    Kind k = static_cast<Kind>(src.choice(3));
    vp::label(KIND[k]);
    return k;
}

// --- matrices ----------------------------------------------------------------------------------
double number(vp::Src &src, Kind kind) {
    bool bits = kind == BINARY || kind == PORTABLE;
    switch (src.choice(6)) {
    case 0:
        return 0;
    case 1:
        return static_cast<double>(src.pick(-1000, 1000));
    case 2:
        return src.sym(10);
    case 3:
        return (src.flip() ? -1 : 1) * src.logreal(1e-300, 1e300);
    case 4:
        return src.of<double>({DBL_MAX, -DBL_MAX, DBL_MIN, DBL_EPSILON, 1 + DBL_EPSILON, 1. / 3, 0.1, 1e22, 123456789012345678.});
    case 5:
        return bits ? src.of<double>({5e-324, -0., INFINITY, -INFINITY, std::nan("")}) : src.of<double>({-0.1, 0.7});
    default: {
        unsigned long long b = static_cast<unsigned long long>(src.choice((1LL << 62) - 1)) * 4 + static_cast<unsigned long long>(src.choice(3));
        double d = 0;
        std::memcpy(&d, &b, sizeof(d));
        return !bits && !std::isnormal(d) ? 1.5 : d;
    }
    }
}
template <typename T>
T scalar(vp::Src &src, Kind kind) {
    if constexpr (std::is_same<T, cd>::value) {
        double re = number(src, kind), im = number(src, kind);
        return cd(re, im);
    } else if constexpr (std::is_same<T, double>::value) {
        return number(src, kind);
    } else {
        return static_cast<T>(src.pick(-100000, 100000)) / static_cast<T>(std::is_integral<T>::value ? 1 : 7);
    }
}
template <typename T>
bool identical(const T &a, const T &b, Kind kind) {
    return kind == BINARY || kind == PORTABLE ? std::memcmp(&a, &b, sizeof(T)) == 0 : a == b;
}
template <typename M>
void dense_case(vp::Src &src, Kind kind, Eigen::Index rows, Eigen::Index cols) {
    using T = typename M::Scalar;
    M m(rows, cols), back;
    for (Eigen::Index k = 0; k < cols; ++k) {
        for (Eigen::Index i = 0; i < rows; ++i) {
            m(i, k) = scalar<T>(src, kind);
        }
    }
    VP_NOTE(KIND[kind] << " dense " << rows << "x" << cols << " of " << sizeof(T) << " bytes\n" << m);
    if (src.flip() && M::RowsAtCompileTime == Eigen::Dynamic && M::ColsAtCompileTime == Eigen::Dynamic) {
        back = M::Constant(src.pick(0, 4), src.pick(0, 4), T(7));
    }
    M copy = m;
    std::string data = save(kind, m);
    VP_CHECK(m.rows() == rows && m.cols() == cols && std::equal(m.data(), m.data() + m.size(), copy.data(), [&](const T &a, const T &b) { return identical(a, b, BINARY); }), "saving changes the matrix");
    load(kind, data, back);
    VP_CHECK(back.rows() == rows && back.cols() == cols, "restored as " << back.rows() << "x" << back.cols());
    for (Eigen::Index i = 0; i < m.size(); ++i) {
        VP_CHECK(identical(m.data()[i], back.data()[i], kind), "element " << i << ": " << m.data()[i] << " is restored as " << back.data()[i]);
    }
    vp::nontrivial(m.size() > 1);
}
template <typename T, int Order>
void sparse_case(vp::Src &src, Kind kind, Eigen::Index rows, Eigen::Index cols) {
    using M = Eigen::SparseMatrix<T, Order>;
    std::map<std::pair<Eigen::Index, Eigen::Index>, T> ref;
    M m(rows, cols);
    long long n = rows * cols == 0 ? 0 : src.pick(0, 2 * rows * cols);
    bool compressed = src.flip();
    bool batch = src.flip();
    std::vector<Eigen::Triplet<T>> trip;
    for (long long i = 0; i < n; ++i) {
        auto at = std::make_pair(static_cast<Eigen::Index>(src.choice(rows - 1)), static_cast<Eigen::Index>(src.choice(cols - 1)));
        T v = scalar<T>(src, kind);
        if (batch && ref.count(at) != 0) {
            continue;
        }
        ref[at] = v;
        if (batch) {
            trip.emplace_back(at.first, at.second, v);
        } else {
            m.coeffRef(at.first, at.second) = v;
        }
    }
    if (batch) {
        m.setFromTriplets(trip.begin(), trip.end());
        if (!compressed) {
            m.uncompress();
        }
    } else if (compressed) {
        m.makeCompressed();
    }
    std::ostringstream what;
    what << KIND[kind] << (Order == Eigen::RowMajor ? " row-major" : "") << (m.isCompressed() ? "" : " uncompressed") << " sparse " << rows << "x" << cols << " of " << sizeof(T) << " bytes, " << ref.size() << " entries";
    VP_NOTE(what.str());
    M back;
    if (src.flip()) {
        back.resize(src.pick(1, 5), src.pick(1, 5));
        back.coeffRef(0, 0) = T(3);
        if (src.flip()) {
            back.makeCompressed();
        }
    }
    std::string data = save(kind, m);
    load(kind, data, back);
    for (M *x : {&m, &back}) {
        const char *which = x == &m ? "the saved matrix" : "the restored matrix";
        VP_CHECK(x->rows() == rows && x->cols() == cols, which << " is " << x->rows() << "x" << x->cols());
        VP_CHECK(static_cast<size_t>(x->nonZeros()) == ref.size(), which << " has " << x->nonZeros() << " entries");
        auto left = ref;
        for (Eigen::Index k = 0; k < x->outerSize(); ++k) {
            for (typename M::InnerIterator it(*x, k); it; ++it) {
                auto f = left.find({it.row(), it.col()});
                VP_CHECK(f != left.end(), which << " has an entry at " << it.row() << "," << it.col());
                VP_CHECK(identical(f->second, it.value(), x == &m ? BINARY : kind), which << " has " << it.value() << " instead of " << f->second << " at " << it.row() << "," << it.col());
                left.erase(f);
            }
        }
    }
    // the restored matrix can be used like any other
    if (rows > 0 && cols > 0) {
        Eigen::Index r = static_cast<Eigen::Index>(src.choice(rows - 1)), c = static_cast<Eigen::Index>(src.choice(cols - 1));
        back.coeffRef(r, c) = T(5);
        back.makeCompressed();
        VP_CHECK(back.coeff(r, c) == T(5) && static_cast<size_t>(back.nonZeros()) == ref.size() + (ref.count({r, c}) == 0), "the restored matrix cannot be changed");
    }
    vp::nontrivial(ref.size() > 1);
}
void matrices(vp::Src &src) {
    Kind kind = gen_kind(src);
    Eigen::Index rows = src.pick(0, 7), cols = src.pick(0, 7);
    switch (src.choice(11)) {
    case 0:
        return dense_case<Eigen::MatrixX<double>>(src, kind, rows, cols);
    case 1:
        return dense_case<Eigen::MatrixX<cd>>(src, kind, rows, cols);
    case 2:
        return dense_case<Eigen::VectorX<double>>(src, kind, rows, 1);
    case 3:
        return dense_case<Eigen::Matrix<double, 3, 3>>(src, kind, 3, 3);
    case 4:
        return dense_case<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>>(src, kind, rows, cols);
    case 5:
        return dense_case<Eigen::MatrixXf>(src, kind, rows, cols);
    case 6:
        return dense_case<Eigen::MatrixXi>(src, kind, rows, cols);
    case 7:
        return sparse_case<cd, Eigen::RowMajor>(src, kind, rows, cols);
    case 8:
        return sparse_case<double, Eigen::RowMajor>(src, kind, rows, cols);
    case 9:
    case 10:
        return sparse_case<double, Eigen::ColMajor>(src, kind, rows, cols);
    default:
        return sparse_case<cd, Eigen::ColMajor>(src, kind, rows, cols);
    }
}

// --- states ------------------------------------------------------------------------------------
StateOne gen_one_state(vp::Src &src, bool open) {
    if (src.chance(1, 4)) {
        return StateOne(src.of<std::string>({"G", "Rb", "x y", "<|&\">", "\xc3\xa9", "a'b\\c"}));
    }
    std::string sp = src.of(mx::species());
    int n = static_cast<int>(src.pick(5, 120)), l = static_cast<int>(src.pick(0, std::min(n - 1, 12)));
    double s = mx::spin(sp), j = std::abs(l - s);
    j += static_cast<double>(src.pick(0, std::lround(l + s - j)));
    double m = -j + static_cast<double>(src.pick(0, std::lround(2 * j)));
    if (open && src.flip()) {
        return StateOne(src.flip() ? sp : "", src.flip() ? n : ARB, src.flip() ? l : ARB, src.flip() ? static_cast<float>(j) : static_cast<float>(ARB), src.flip() ? static_cast<float>(m) : static_cast<float>(ARB));
    }
    return StateOne(sp, n, l, static_cast<float>(j), static_cast<float>(m));
}
template <typename S>
void same_state(const S &a, const S &b, const std::string &what) {
    VP_CHECK(a == b && !(a != b) && !(a < b) && !(b < a), what << ": the restored state differs: " << b);
    std::ostringstream x, y;
    x << a;
    y << b;
    VP_CHECK(x.str() == y.str(), what << ": the restored state is printed as " << y.str());
    VP_CHECK(std::hash<S>{}(a) == std::hash<S>{}(b), what << ": the hash of the restored state differs");
}
void same_one(const StateOne &a, const StateOne &b, const std::string &what) {
    same_state(a, b, what);
    VP_CHECK(a.isArtificial() == b.isArtificial() && a.isGeneralized() == b.isGeneralized(), what << ": kind of the state");
    if (a.isArtificial()) {
        VP_CHECK(a.getLabel() == b.getLabel(), what << ": label");
        return;
    }
    VP_CHECK(a.getN() == b.getN() && a.getL() == b.getL() && a.getJ() == b.getJ() && a.getM() == b.getM() && a.getS() == b.getS() && a.getSpecies() == b.getSpecies() && a.getElement() == b.getElement(), what << ": quantum numbers");
    VP_CHECK((a ^ b) && a.getReflected() == b.getReflected(), what << ": relations");
}
void states(vp::Src &src) {
    Kind kind = gen_kind(src);
    StateOne a = gen_one_state(src, true), b = gen_one_state(src, true);
    std::ostringstream os;
    os << KIND[kind];
    switch (src.choice(4)) {
    case 0: {
        os << " " << a;
        VP_NOTE(os.str());
        StateOne back = src.flip() ? StateOne() : b;
        load(kind, save(kind, a), back);
        same_one(a, back, os.str());
        break;
    }
    case 1: {
        StateTwo t(a, b), back = src.flip() ? StateTwo() : StateTwo(b, a);
        os << " " << t;
        VP_NOTE(os.str());
        load(kind, save(kind, t), back);
        same_state(t, back, os.str());
        same_one(a, back.getFirstState(), os.str());
        same_one(b, back.getSecondState(), os.str());
        break;
    }
    case 2: {
        std::vector<StateOne> v, back(src.choice(3));
        for (long long n = src.pick(0, 6); n > 0; --n) {
            v.push_back(gen_one_state(src, true));
        }
        os << " " << v.size() << " states";
        VP_NOTE(os.str());
        load(kind, save(kind, v), back);
        VP_CHECK(v == back, os.str() << ": the restored list differs");
        break;
    }
    case 3: {
        StateOneOld t(src.of<std::string>({"Rb", "Cs", "Sr3"}), static_cast<int>(src.pick(5, 90)), 2, 2.5f, -1.5f), back;
        os << " old " << t;
        VP_NOTE(os.str());
        load(kind, save(kind, t), back);
        VP_CHECK(t == back && back.getSpecies() == t.getSpecies() && back.element == t.element && back.s == t.s && back.getN() == t.getN() && back.getL() == t.getL() && back.getJ() == t.getJ() && back.getM() == t.getM(), os.str() << ": restored as " << back);
        break;
    }
    default: {
        StateTwoOld t({{src.of<std::string>({"Rb", "Cs", "Sr3"}), "K"}}, {{static_cast<int>(src.pick(5, 90)), 17}}, {{2, static_cast<int>(src.pick(0, 5))}}, {{2.5f, 1.5f}}, {{-1.5f, 0.5f}}), back;
        os << " old " << t;
        VP_NOTE(os.str());
        load(kind, save(kind, t), back);
        VP_CHECK(t == back && back.getSpecies() == t.getSpecies() && back.element == t.element && back.s == t.s, os.str() << ": restored as " << back);
    }
    }
    vp::nontrivial(true);
}

// --- caches ------------------------------------------------------------------------------------
std::function<double(MatrixElementCache &)> gen_query(vp::Src &src, std::string &what) {
    std::string sp = src.of<std::string>({"Rb", "Cs", "Sr3", "Sr1"});
    StateOne a = mx::gen_state(src, sp, 8, 16, 3);
    int k = static_cast<int>(src.pick(1, 3));
    StateOne b = mx::gen_partner(src, a, k, 2, 6);
    std::ostringstream os;
    long long op = src.choice(4);
    os << " " << op << ":" << a << b << k;
    what += os.str();
    switch (op) {
    case 0:
        return [=](MatrixElementCache &c) { return c.getElectricMultipole(a, b, k); };
    case 1:
        return [=](MatrixElementCache &c) { return c.getRadial(a, b, k); };
    case 2:
        return [=](MatrixElementCache &c) { return c.getMagneticDipole(a, b); };
    case 3:
        return [=](MatrixElementCache &c) { return c.getElectricDipole(a, b); };
    default:
        return [=](MatrixElementCache &c) { return c.getDiamagnetism(a, b, 2); };
    }
}
void caches(vp::Src &src) {
    Kind kind = gen_kind(src);
    std::string dir = vp::fresh_dir("cache");
    bool db = src.flip();
    auto make = [&](const std::string &d, bool use) { return use ? std::make_unique<MatrixElementCache>(d) : std::make_unique<MatrixElementCache>(); };
    auto a = make(dir, db);
    std::string what = std::string(KIND[kind]) + (db ? " with database" : "");
    bool whittaker = src.chance(1, 4);
    if (whittaker) {
        a->setMethod(WHITTAKER);
        what += " whittaker";
    }
    std::vector<std::function<double(MatrixElementCache &)>> asked;
    std::vector<double> value;
    for (long long n = src.pick(0, 6); n > 0; --n) {
        asked.push_back(gen_query(src, what));
        value.push_back(asked.back()(*a));
    }
    bool tabulated = false;
    if (src.chance(1, 3)) { // dipole elements given by the user
        std::string sp = src.of<std::string>({"Rb", "Sr1"});
        StateOne x = mx::gen_state(src, sp, 8, 16, 3), y = mx::gen_partner(src, x, 1, 2, 6);
        if (std::abs(x.getL() - y.getL()) == 1 && std::abs(x.getJ() - y.getJ()) <= 1 && x.getJ() + y.getJ() >= 1) {
            std::string file = dir + "/dipole.csv";
            std::ofstream f(file);
            double v = std::round(1000 * src.sym(50)) / 1000 + 0.0005;
            f << x.getN() << ";" << x.getL() << ";" << x.getJ() << ";" << y.getN() << ";" << y.getL() << ";" << y.getJ() << ";" << v << "\n";
            f.close();
            a->loadElectricDipoleDB(file, sp);
            asked.push_back([=](MatrixElementCache &c) { return c.getRadial(x, y, 1); });
            value.push_back(asked.back()(*a));
            what += " table " + x.str() + y.str();
            vp::label("tabulated elements");
            tabulated = true;
            // requests before the table was loaded may have changed
            for (size_t i = 0; i < asked.size(); ++i) {
                value[i] = asked[i](*a);
            }
        }
    }
    size_t size = a->size();
    // the target may have been used before
    std::string dir2 = vp::fresh_dir("cache2");
    bool used = src.flip(), used_db = used && src.flip();
    auto b = make(dir2, used_db);
    std::string other;
    if (used) {
        gen_query(src, other)(*b);
        what += used_db ? " into a used cache with a database" : " into a used cache";
    }
    VP_NOTE(what);
    load(kind, save(kind, *a), *b);
    VP_CHECK(b->size() == size, what << ": the restored cache contains " << b->size() << " elements instead of " << size);
    VP_CHECK(b->getDefectDB() == a->getDefectDB(), what << ": the restored cache uses " << b->getDefectDB());
    for (size_t i = 0; i < asked.size(); ++i) {
        double v = asked[i](*b);
        VP_CHECK(v == value[i], what << ": element " << i << " is " << v << " instead of " << value[i]);
        VP_CHECK(b->size() == size, what << ": element " << i << " had not been restored");
    }
    // both go on independently
    for (int i = 0; i < 2; ++i) {
        auto q = gen_query(src, what);
        double v = q(*a), w = q(*b);
        VP_CHECK(v == w, what << ": the restored cache gives " << w << ", the original one " << v);
    }
    if (tabulated && src.flip()) { // the elements given by the user outlive a change of the defects
        a->setDefectDB(a->getDefectDB());
        b->setDefectDB(b->getDefectDB());
        double v = asked.back()(*a), w = asked.back()(*b);
        VP_CHECK(v == w, what << ": the tabulated element is " << w << " instead of " << v << " after the defects had been loaded again");
    }
    a.reset();
    b.reset();
    vp::remove_tree(dir);
    vp::remove_tree(dir2);
    vp::nontrivial(size > 0);
}

// --- systems -----------------------------------------------------------------------------------
struct Captured { // collects warnings
    std::ostringstream os;
    std::streambuf *old;
    Captured() : old(std::cerr.rdbuf(os.rdbuf())) {}
    ~Captured() {
        std::cerr.rdbuf(old);
        std::cerr.clear();
    }
};
template <typename Sys>
struct Twins {
    std::deque<std::unique_ptr<MatrixElementCache>> caches; // have to outlive the systems
    std::unique_ptr<Sys> a, b;                              // the original, and the one that is restored from archives
    std::string log;
    bool restored = false; // since then, the order in which contributions are summed up may differ, ...
    bool mixed = false;    // ... so that degenerate eigenvectors may differ
    bool built = false;
};
// does the same to both systems
template <typename Sys>
bool both(Twins<Sys> &t, const std::string &name, const std::function<std::string(Sys &)> &f) {
    t.log += " " + name;
    if (std::getenv("C13_TRACE") != nullptr) std::cout << t.log << std::endl;
    std::string got[2], warned[2], why[2];
    bool thrown[2];
    for (int i = 0; i < 2; ++i) {
        Captured c;
        thrown[i] = false;
        try {
            got[i] = f(i == 0 ? *t.a : *t.b);
        } catch (const std::exception &e) {
            thrown[i] = true;
            why[i] = e.what();
        }
        warned[i] = c.os.str();
    }
    VP_CHECK(thrown[0] == thrown[1], t.log << (thrown[0] ? ": refused by the original: " + why[0] + ", but not by the restored system" : ": refused by the restored system: " + why[1] + ", but not by the original"));
    VP_CHECK(why[0] == why[1], t.log << ": the original says '" << why[0] << "', the restored system '" << why[1] << "'");
    VP_CHECK(got[0] == got[1], t.log << ": " << got[0] << " for the original, " << got[1] << " for the restored system");
    VP_CHECK(warned[0] == warned[1], t.log << ": the original warns '" << warned[0] << "', the restored system '" << warned[1] << "'");
    return !thrown[0];
}
template <typename State, typename Sys>
void compare(Sys &a, Sys &b, const std::string &log, bool mixed) {
    auto x = sm::look<Sys, State>(a), y = sm::look<Sys, State>(b);
    VP_CHECK(x.refused == y.refused && x.why == y.why, log << ": the original " << (x.refused ? "refuses: " + x.why : "accepts") << ", the restored system " << (y.refused ? "refuses: " + y.why : "accepts"));
    if (x.refused) {
        return;
    }
    VP_CHECK(x.states == y.states, log << ": other states or another order of the states");
    sm::same(y, x, log + " (restored system and original one)", mixed);
}
template <typename State, typename Sys>
void compare(Twins<Sys> &t) {
    t.log += " look";
    compare<State>(*t.a, *t.b, t.log, t.mixed);
    t.built = true;
    auto x = sm::look<Sys, State>(*t.a), y = sm::look<Sys, State>(*t.b);
    VP_CHECK(x.refused == y.refused && x.states == y.states, t.log << ": the second look differs");
    if (!x.refused && !x.states.empty() && !t.mixed) {
        const State &s = x.states[x.states.size() / 2];
        Eigen::VectorX<double> u = t.a->getOverlap(s), v = t.b->getOverlap(s);
        VP_CHECK(u.size() == v.size() && (u.size() == 0 || (u - v).cwiseAbs().maxCoeff() < 1e-9), t.log << ": overlaps with " << s << " differ");
        VP_CHECK(t.a->getNumStates() == t.b->getNumStates() && t.a->getNumBasisvectors() == t.b->getNumBasisvectors(), t.log << ": sizes differ");
    }
}
template <typename State, typename Sys>
void archive(vp::Src &src, Twins<Sys> &t, const std::function<std::unique_ptr<Sys>(MatrixElementCache &, bool used)> &target) {
    Quiet quiet;
    // text archives of the caches are large
    Kind kind = src.chance(1, 5) ? gen_kind(src) : BINARY;
    bool used = src.chance(1, 4);
    t.log += std::string(" ARCHIVE(") + KIND[kind] + (used ? ", loaded into a used system)" : ")");
    Sys &from = src.flip() ? *t.a : *t.b; // a restored system can be archived again
    std::string data = save(kind, from);
    t.caches.push_back(std::make_unique<MatrixElementCache>());
    auto b = target(*t.caches.back(), used);
    load(kind, data, *b);
    {
        Sys ca = *t.a, cb = *b;
        compare<State>(ca, cb, t.log, t.mixed && t.restored);
    }
    t.b = std::move(b);
    t.restored = true;
}
std::string number_of(double x) {
    std::ostringstream os;
    os.precision(12);
    os << x;
    return os.str();
}
template <typename Sys, typename State>
void common_op(vp::Src &src, Twins<Sys> &t, int &budget) {
    auto say = [](Sys &) { return std::string(); };
    (void)say;
    bool sharp = !t.mixed; // the basis vectors themselves are the same
    switch (src.choice(11)) {
    case 0:
        both<Sys>(t, "build", [](Sys &s) { s.buildHamiltonian(); return ""; });
        t.built = true;
        break;
    case 1:
        both<Sys>(t, "interaction", [](Sys &s) { s.buildInteraction(); return ""; });
        t.built = true;
        break;
    case 2:
        both<Sys>(t, "basis", [](Sys &s) { s.buildBasis(); return ""; });
        t.built = true;
        break;
    case 3:
    case 4: {
        if (both<Sys>(t, "diagonalize", [](Sys &s) { s.diagonalize(); return ""; })) {
            t.mixed = true;
        }
        t.built = true;
        break;
    }
    case 5:
        if (t.built && !both<Sys>(t, "canonicalize", [](Sys &s) { s.canonicalize(); return ""; })) {
            budget = 0;
        }
        break;
    case 6:
        if (sharp && t.built && src.chance(1, 3)) {
            both<Sys>(t, "unitarize", [](Sys &s) { s.unitarize(); return ""; });
        }
        break;
    case 7: {
        double a = sm::is_complex<typename std::decay<decltype(t.a->getHamiltonian().coeff(0, 0))>::type> && src.flip() ? src.sym(3) : 0, b = src.sym(3), g = a != 0 ? src.sym(3) : 0;
        if (t.built && !both<Sys>(t, "rotate " + number_of(b), [=](Sys &s) { s.rotate(a, b, g); return ""; })) {
            budget = 0;
        }
        break;
    }
    case 8:
        if (sharp && t.built) {
            size_t n = 0;
            {
                Quiet q;
                try {
                    n = t.a->getNumBasisvectors();
                } catch (const std::exception &) {
                }
            }
            std::vector<size_t> keep;
            for (size_t i = 0; i < n; ++i) {
                if (!src.chance(1, 4)) {
                    keep.push_back(i);
                }
            }
            if (!keep.empty()) {
                both<Sys>(t, "constrain to " + std::to_string(keep.size()), [=](Sys &s) { s.constrainBasisvectors(keep); return ""; });
            }
        }
        break;
    case 9:
        if (sharp && t.built && src.flip()) {
            double v = src.sym(1e-3);
            both<Sys>(t, "add entry", [=](Sys &s) {
                auto st = s.getStates();
                if (st.size() > 1) {
                    s.addHamiltonianEntry(st[0], st[st.size() / 2], v);
                    s.addHamiltonianEntry(st[st.size() - 1], st[st.size() - 1], v);
                }
                return "";
            });
        } else if (t.built) {
            both<Sys>(t, "entry", [&](Sys &s) {
                auto st = s.getStates();
                auto x = s.getHamiltonianEntry(st.front(), st.back());
                return number_of(std::abs(x) < 1e-9 ? 0 : std::round(std::abs(x) * 1e6));
            });
        }
        break;
    case 10:
        if (sharp) {
            both<Sys>(t, "main states", [&](Sys &s) {
                std::ostringstream os;
                for (auto &st : s.getMainStates()) {
                    os << st;
                }
                return os.str();
            });
            t.built = true;
        }
        break;
    default:
        compare<State>(t);
    }
}
template <typename S>
std::vector<std::pair<std::string, std::function<void(SystemOne<S> &)>>> one_settings(const One &o) {
    using F = std::function<void(SystemOne<S> &)>;
    std::vector<std::pair<std::string, F>> v;
    v.push_back({"E" + vp::show(o.e), [=](SystemOne<S> &s) { s.setEfield(o.e); }});
    v.push_back({"B" + vp::show(o.b), [=](SystemOne<S> &s) { s.setBfield(o.b); }});
    v.push_back({std::string("dia ") + (o.diamagnetism ? "on" : "off"), [=](SystemOne<S> &s) { s.enableDiamagnetism(o.diamagnetism); }});
    v.push_back({"charge " + std::to_string(o.charge), [=](SystemOne<S> &s) { s.setIonCharge(o.charge); }});
    v.push_back({"order " + std::to_string(o.order), [=](SystemOne<S> &s) { s.setRydIonOrder(o.order); }});
    v.push_back({"ion at " + number_of(o.distance), [=](SystemOne<S> &s) { s.setRydIonDistance(o.distance); }});
    return v;
}
// the numerical integration takes long for large n
void cheap(One &o) {
    std::set<int> n;
    for (int x : o.n) {
        n.insert(12 + (x - 12) % 5);
    }
    o.n = n;
    sm::require_rydberg(o);
}
template <typename S>
bool twins_one(vp::Src &src) {
    using Sys = SystemOne<S>;
    One o = sm::gen_one(src, 14, sm::is_complex<S>, false);
    cheap(o);
    auto st = o.states();
    Twins<Sys> t;
    bool saving = src.chance(1, 6);
    t.caches.push_back(std::make_unique<MatrixElementCache>());
    t.a = std::make_unique<Sys>(o.species, *t.caches.back(), saving);
    t.b = std::make_unique<Sys>(*t.a);
    t.log = std::string(sm::is_complex<S> ? "complex " : "real ") + o.species + " n" + vp::show(o.n) + " l" + vp::show(o.l) + (saving ? " memory saving" : "") + " |";
    auto target = [&](MatrixElementCache &c, bool used) {
        auto x = std::make_unique<Sys>(used ? "Cs" : "", c, used && src.flip());
        if (used) {
            x->restrictN(20, 21);
            x->restrictL(0, 1);
            x->restrictM(0.5f, 0.5f);
            x->setIonCharge(2);
            x->setRydIonOrder(3);
            x->setRydIonDistance(3);
            x->setEfield({{0.1, 0, 1}});
            x->setBfield({{1, 0, 10}});
            x->enableDiamagnetism(src.flip());
            if (src.flip()) {
                x->setConservedMomentaUnderRotation({0.5f});
            }
            if (src.flip()) {
                src.flip() ? x->diagonalize() : x->buildHamiltonian();
            }
        }
        return x;
    };
    auto arch = [&](long long num, long long den) {
        if (src.chance(num, den)) {
            archive<StateOne, Sys>(src, t, target);
        }
    };
    auto set = [&](const std::string &name, const std::function<void(Sys &)> &f) { return both<Sys>(t, name, [&](Sys &s) { f(s); return ""; }); };
    // the restrictions and everything else that comes before the basis, in any order
    std::vector<std::pair<std::string, std::function<void(Sys &)>>> first;
    first.push_back({"n", [=](Sys &s) { s.restrictN(o.n); }});
    first.push_back({"l", [=](Sys &s) { s.restrictL(o.l); }});
    if (src.chance(1, 4)) {
        float j = src.of(st).getJ();
        first.push_back({"j", [=](Sys &s) { s.restrictJ(j, j + 1); }});
    }
    if (src.chance(1, 4)) {
        float m = src.of(st).getM();
        first.push_back({"m", [=](Sys &s) { s.restrictM({m, -m}); }});
    }
    if (src.chance(1, 4)) {
        double e = src.of(st).getEnergy(), w = src.logreal(1, 1000);
        first.push_back({"energy", [=](Sys &s) { s.restrictEnergy(e - w, e + w); }});
    }
    if (src.chance(1, 4)) {
        double norm = src.real(0, 0.3);
        first.push_back({"norm " + number_of(norm), [=](Sys &s) { s.setMinimalNorm(norm); }});
    }
    if (src.chance(1, 5)) {
        StateOne extra = src.flip() ? StateOne("G") : StateOne(o.species, *o.n.rbegin() + 5, 0, static_cast<float>(mx::spin(o.species)), static_cast<float>(mx::spin(o.species)));
        first.push_back({"extra state", [=](Sys &s) { s.addStates(extra); }});
    }
    switch (src.choice(4)) {
    case 0: {
        parity_t p = src.flip() ? EVEN : ODD;
        first.push_back({"reflection", [=](Sys &s) { s.setConservedParityUnderReflection(p); }});
        break;
    }
    case 1: {
        float m = src.of(st).getM(), m2 = src.of(st).getM();
        first.push_back({"momenta", [=](Sys &s) { s.setConservedMomentaUnderRotation({m, m2}); }});
        break;
    }
    default:
        break;
    }
    auto rest = one_settings<S>(o);
    for (auto &x : rest) {
        if (src.flip()) {
            first.push_back(x);
        }
    }
    for (size_t i = first.size(); i > 1; --i) {
        std::swap(first[i - 1], first[src.choice(i - 1)]);
    }
    for (auto &x : first) {
        arch(1, 8);
        set(x.first, x.second);
    }
    arch(1, 4);
    int budget = static_cast<int>(src.pick(2, 12)), archived = 0;
    while (budget-- > 0) {
        if (src.chance(1, 3)) {
            archived += t.built;
            archive<StateOne, Sys>(src, t, target);
        }
        if (src.flip()) {
            Twins<Sys> &x = t;
            One p = sm::gen_one(src, 1000000, sm::is_complex<S>, false);
            auto v = one_settings<S>(p);
            auto &f = src.of(v);
            if (set(f.first, f.second)) {
                x.mixed = false;
            }
        } else if (src.chance(1, 6)) {
            // further restrictions of the present basis
            if (t.mixed) {
                continue;
            }
            switch (src.choice(3)) {
            case 0: {
                int n = *o.n.begin();
                set("restrict n", [=](Sys &s) { s.restrictN(n, n); });
                break;
            }
            case 1: {
                int l = *o.l.rbegin();
                set("restrict l", [=](Sys &s) { s.restrictL(l, l); });
                break;
            }
            case 2: {
                double e = src.of(st).getEnergy(), w = src.logreal(1, 1000);
                set("restrict energy", [=](Sys &s) { s.restrictEnergy(e - w, e + w); });
                break;
            }
            default:
                double norm = src.real(0, 0.5);
                set("norm", [=](Sys &s) { s.setMinimalNorm(norm); });
            }
            arch(1, 3);
            compare<StateOne>(t);
        } else {
            common_op<Sys, StateOne>(src, t, budget);
        }
    }
    VP_NOTE(t.log);
    compare<StateOne>(t);
    VP_CHECK(t.a->getSpecies() == t.b->getSpecies(), t.log << ": species");
    return archived > 0;
}
template <typename S>
bool twins_two(vp::Src &src) {
    using Sys = SystemTwo<S>;
    sm::Two w = sm::gen_two(src, 5, sm::is_complex<S>, src.flip());
    cheap(w.a);
    cheap(w.b);
    bool same_atoms = src.flip();
    if (same_atoms) {
        w.b = w.a;
    }
    bool plain = src.flip(); // basis vectors of the atoms are states
    if (plain) {
        for (One *o : {&w.a, &w.b}) {
            o->e = o->b = {{0, 0, 0}};
            o->charge = 0;
        }
    }
    Twins<Sys> t;
    t.caches.push_back(std::make_unique<MatrixElementCache>());
    MatrixElementCache &cache = *t.caches.back();
    bool saving = src.chance(1, 6);
    {
        Quiet quiet;
        SystemOne<S> a(w.a.species, cache), b(w.b.species, cache);
        w.a.restrict(a);
        w.a.settings(a);
        w.b.restrict(b);
        w.b.settings(b);
        if (src.flip()) {
            a.diagonalize();
            same_atoms ? b = a, void() : b.diagonalize();
        }
        t.a = std::make_unique<Sys>(a, b, cache, saving);
    }
    t.b = std::make_unique<Sys>(*t.a);
    t.log = std::string(sm::is_complex<S> ? "complex " : "real ") + w.str() + (saving ? " memory saving" : "") + " |";
    auto target = [&](MatrixElementCache &c, bool used) {
        SystemOne<S> p(used ? "Cs" : "", c), q(used ? "Cs" : "", c);
        if (used) {
            for (SystemOne<S> *o : {&p, &q}) {
                o->restrictN(20, 21);
                o->restrictL(0, 0);
                o->restrictM(0.5f, 0.5f);
            }
        }
        auto x = std::make_unique<Sys>(p, q, c, used && src.flip());
        if (used) {
            x->setDistance(11);
            x->setOrder(4);
            if (src.flip()) {
                x->setDistanceVector({{1, 0, 4}});
                x->setSurfaceDistance(5);
            }
            if (src.flip()) {
                x->setOneAtomBasisvectors({{{0, 0}}});
            }
            if (src.flip()) {
                x->diagonalize();
            }
        }
        return x;
    };
    auto arch = [&](long long num, long long den) {
        if (src.chance(num, den)) {
            archive<StateTwo, Sys>(src, t, target);
        }
    };
    auto set = [&](const std::string &name, const std::function<void(Sys &)> &f) { return both<Sys>(t, name, [&](Sys &s) { f(s); return ""; }); };
    std::vector<std::pair<std::string, std::function<void(Sys &)>>> first;
    if (src.chance(1, 4)) {
        int n = static_cast<int>(src.pick(*w.a.n.begin(), *w.a.n.rbegin()));
        first.push_back({"n", [=](Sys &s) { s.restrictN(std::set<int>{n, n + 1, n - 1}); }});
    }
    if (src.chance(1, 4)) {
        double e = src.of(w.a.states()).getEnergy() + src.of(w.b.states()).getEnergy(), d = src.logreal(0.1, 1000);
        first.push_back({"energy", [=](Sys &s) { s.restrictEnergy(e - d, e + d); }});
    }
    if (src.chance(1, 4)) {
        double norm = src.real(0, 0.3);
        first.push_back({"norm " + number_of(norm), [=](Sys &s) { s.setMinimalNorm(norm); }});
    }
    parity_t p = src.flip() ? EVEN : ODD;
    if (plain && src.chance(1, 3)) {
        size_t na = w.a.states().size(), nb = w.b.states().size();
        std::vector<std::array<size_t, 2>> chosen;
        for (size_t i = 0; i < na; ++i) {
            for (size_t k = 0; k < nb; ++k) {
                if (src.flip()) {
                    chosen.push_back({{i, k}});
                }
            }
        }
        if (!chosen.empty()) {
            first.push_back({"chosen products", [=](Sys &s) { s.setOneAtomBasisvectors(chosen); }});
            vp::label("chosen products");
        }
    } else {
        switch (src.choice(5)) {
        case 0:
            first.push_back({"permutation", [=](Sys &s) { s.setConservedParityUnderPermutation(p); }});
            break;
        case 1:
            first.push_back({"inversion", [=](Sys &s) { s.setConservedParityUnderInversion(p); }});
            break;
        case 2: {
            int m = static_cast<int>(src.pick(-1, 2));
            first.push_back({"momenta", [=](Sys &s) { s.setConservedMomentaUnderRotation({m, m - 1}); }});
            break;
        }
        case 3:
            if (plain) {
                first.push_back({"reflection", [=](Sys &s) { s.setConservedParityUnderReflection(p); }});
            }
            break;
        default:
            break;
        }
    }
    double reach = std::max(*w.a.n.rbegin(), *w.b.n.rbegin());
    auto geometry = [&]() -> std::pair<std::string, std::function<void(Sys &)>> {
        double R = sm::gen_distance(src, static_cast<int>(reach));
        switch (src.choice(6)) {
        case 0:
            return {"distance " + number_of(R), [=](Sys &s) { s.setDistance(R); }};
        case 1: {
            double th = src.sym(3.1), ph = src.chance(1, sm::is_complex<S> ? 3 : 12) ? src.sym(3.1) : 0;
            Vec3 d{{R * std::sin(th) * std::cos(ph), R * std::sin(th) * std::sin(ph), R * std::cos(th)}};
            return {"vector " + vp::show(d), [=](Sys &s) { s.setDistanceVector(d); }};
        }
        case 2: {
            double th = src.choice(2) == 0 ? 0 : src.sym(3.1);
            return {"angle " + number_of(th), [=](Sys &s) { s.setAngle(th); }};
        }
        case 3: {
            bool on = src.flip();
            return {std::string("green ") + (on ? "on" : "off"), [=](Sys &s) { s.enableGreenTensor(on); }};
        }
        case 4: {
            double order = static_cast<double>(src.pick(2, 6));
            return {"order " + number_of(order), [=](Sys &s) { s.setOrder(order); }};
        }
        case 5: {
            double d = src.flip() ? FAR : R * src.logreal(0.6, 4);
            return {"surface " + number_of(d), [=](Sys &s) { s.setSurfaceDistance(d); }};
        }
        default:
            return {"distance " + number_of(R), [=](Sys &s) { s.setDistance(R); }};
        }
    };
    for (long long n = src.pick(0, 5); n > 0; --n) {
        first.push_back(geometry());
    }
    for (size_t i = first.size(); i > 1; --i) {
        std::swap(first[i - 1], first[src.choice(i - 1)]);
    }
    for (auto &x : first) {
        arch(1, 8);
        set(x.first, x.second);
    }
    arch(1, 4);
    int budget = static_cast<int>(src.pick(2, 12)), archived = 0;
    while (budget-- > 0) {
        if (src.chance(1, 3)) {
            archived += t.built;
            archive<StateTwo, Sys>(src, t, target);
        }
        if (src.flip()) {
            auto f = geometry();
            if (set(f.first, f.second)) {
                t.mixed = false;
            }
        } else if (src.chance(1, 6) && !t.mixed) {
            if (src.flip()) {
                double e = src.of(w.a.states()).getEnergy() + src.of(w.b.states()).getEnergy(), d = src.logreal(0.1, 1000);
                set("restrict energy", [=](Sys &s) { s.restrictEnergy(e - d, e + d); });
            } else {
                int l = *w.a.l.begin();
                set("restrict l", [=](Sys &s) { s.restrictL(l, l + 1); });
            }
            arch(1, 3);
            compare<StateTwo>(t);
        } else if (src.chance(1, 8)) {
            both<Sys>(t, "one-atom states", [](Sys &s) {
                std::ostringstream os;
                for (auto &x : s.getStatesFirst()) {
                    os << x;
                }
                for (auto &x : s.getStatesSecond()) {
                    os << x;
                }
                return os.str();
            });
        } else {
            common_op<Sys, StateTwo>(src, t, budget);
        }
    }
    VP_NOTE(t.log);
    compare<StateTwo>(t);
    VP_CHECK(t.a->getSpecies() == t.b->getSpecies(), t.log << ": species");
    return archived > 0;
}
} // namespace

VP_FACET("matrices", 40000, 400000, "more than one element") { matrices(src); }
VP_FACET("states", 20000, 200000, "always") { states(src); }
VP_FACET("matrix element caches", 600, 6000, "the archived cache was not empty") { caches(src); }
VP_FACET("one-atom systems", 2500, 25000, "a system with a basis was archived") { vp::nontrivial(src.flip() ? twins_one<cd>(src) : twins_one<double>(src)); }
VP_FACET("pairs", 6000, 60000, "a system with a basis was archived") { vp::nontrivial(src.flip() ? twins_two<cd>(src) : twins_two<double>(src)); }
