// C11: Hamiltonian matrix operations match dense linear algebra.
#include "Basisnames.hpp"
#include "EigenCompat.hpp"
#include "Hamiltonianmatrix.hpp"
#include "vp.hpp"

#include <Eigen/Dense>
#include <map>
#include <set>

namespace {
typedef std::complex<double> cd;
template <typename S>
using Dense = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
template <typename S>
using Sparse = Eigen::SparseMatrix<S>;

template <typename S>
S scalar(vp::Src &src);
template <>
double scalar<double>(vp::Src &src) {
    return src.sym(3);
}
template <>
cd scalar<cd>(vp::Src &src) {
    double re = src.sym(3);
    return cd(re, src.sym(3));
}
double conj_(double x) { return x; }
cd conj_(cd x) { return std::conj(x); }
template <typename S>
S realonly(S x) {
    return S(std::real(x));
}
template <typename S>
Dense<S> gen_dense(vp::Src &src, int r, int c, int density) {
    Dense<S> m = Dense<S>::Zero(r, c);
    for (int i = 0; i < r; ++i) {
        for (int j = 0; j < c; ++j) {
            if (src.chance(density, 8)) {
                m(i, j) = scalar<S>(src);
            }
        }
    }
    return m;
}
template <typename S>
Dense<S> gen_hermitian(vp::Src &src, int n, int density) {
    Dense<S> m = Dense<S>::Zero(n, n);
    for (int i = 0; i < n; ++i) {
        m(i, i) = src.chance(1, 6) ? S(0) : realonly(scalar<S>(src));
        for (int j = 0; j < i; ++j) {
            if (src.chance(density, 8)) {
                m(i, j) = scalar<S>(src);
                m(j, i) = conj_(m(i, j));
            }
        }
    }
    return m;
}
// orthonormal columns: product of random plane rotations of unit vectors
template <typename S>
Dense<S> gen_orthonormal(vp::Src &src, int r, int c) {
    Dense<S> m = Dense<S>::Identity(r, c);
    int k = static_cast<int>(src.pick(0, r));
    for (int t = 0; t < k && r > 1; ++t) {
        int a = static_cast<int>(src.pick(0, r - 1)), b = static_cast<int>(src.pick(0, r - 2));
        if (b >= a) {
            ++b;
        }
        double phi = src.real(0, 6.283185307179586);
        S ph = scalar<S>(src);
        ph = std::abs(ph) > 0.1 ? ph / std::abs(ph) : S(1);
        Eigen::Matrix<S, 1, Eigen::Dynamic> ra = m.row(a), rb = m.row(b);
        m.row(a) = std::cos(phi) * ra - std::sin(phi) * ph * rb;
        m.row(b) = std::sin(phi) * conj_(ph) * ra + std::cos(phi) * rb;
    }
    return m;
}
template <typename S>
Sparse<S> sparse(const Dense<S> &m) {
    Sparse<S> s(m.rows(), m.cols());
    std::vector<Eigen::Triplet<S>> t;
    for (int i = 0; i < m.rows(); ++i) {
        for (int j = 0; j < m.cols(); ++j) {
            if (m(i, j) != S(0)) {
                t.emplace_back(i, j, m(i, j));
            }
        }
    }
    s.setFromTriplets(t.begin(), t.end());
    return s;
}
template <typename S>
struct Model {
    Dense<S> E, B;
};
template <typename S>
Hamiltonianmatrix<S> make(vp::Src &src, const Model<S> &m) {
    if (src.flip()) {
        return Hamiltonianmatrix<S>(sparse<S>(m.E), sparse<S>(m.B));
    }
    Hamiltonianmatrix<S> h(static_cast<size_t>(src.pick(0, 5)), static_cast<size_t>(src.pick(0, 5)));
    for (int i = 0; i < m.E.rows(); ++i) {
        for (int j = 0; j < m.E.cols(); ++j) {
            if (m.E(i, j) != S(0)) {
                if (src.chance(1, 8)) { // entries given in two parts add up
                    h.addEntries(i, j, m.E(i, j) - S(1));
                    h.addEntries(i, j, S(1));
                } else {
                    h.addEntries(i, j, m.E(i, j));
                }
            }
        }
    }
    for (int j = 0; j < m.B.cols(); ++j) {
        for (int i = 0; i < m.B.rows(); ++i) {
            if (m.B(i, j) != S(0)) {
                h.addBasis(i, j, m.B(i, j));
            }
        }
    }
    h.compress(m.B.cols(), m.B.rows());
    return h;
}
template <typename S>
double maxabs(const Dense<S> &m) {
    return m.size() ? m.cwiseAbs().maxCoeff() : 0;
}
template <typename S>
void same(const Hamiltonianmatrix<S> &h, const Model<S> &m, const std::string &what, double tol = 1e-12) {
    VP_CHECK(h.entries().rows() == m.E.rows() && h.entries().cols() == m.E.cols(), what << ": the operator is " << h.entries().rows() << "x" << h.entries().cols() << " instead of " << m.E.rows() << "x" << m.E.cols());
    VP_CHECK(h.basis().rows() == m.B.rows() && h.basis().cols() == m.B.cols(), what << ": the basis is " << h.basis().rows() << "x" << h.basis().cols() << " instead of " << m.B.rows() << "x" << m.B.cols());
    VP_CHECK(static_cast<long>(h.num_basisvectors()) == m.B.cols() && static_cast<long>(h.num_coordinates()) == m.B.rows(), what << ": reported sizes");
    Dense<S> de = Dense<S>(h.entries()) - m.E, db = Dense<S>(h.basis()) - m.B;
    VP_CHECK(maxabs<S>(de) <= tol * (1 + maxabs<S>(m.E)), what << ": the operator differs by " << maxabs<S>(de));
    VP_CHECK(maxabs<S>(db) <= tol * (1 + maxabs<S>(m.B)), what << ": the basis differs by " << maxabs<S>(db));
}
// weights near the fixed threshold would be decided by rounding
bool near_threshold(double x) { return std::abs(x - 0.05) < 1e-9; }

template <typename S>
Model<S> gen_model(vp::Src &src, int maxn = 7) {
    Model<S> m;
    int n = static_cast<int>(src.size(0, maxn));
    int coord = n + static_cast<int>(src.pick(0, 3));
    int density = static_cast<int>(src.pick(0, 8));
    m.E = gen_hermitian<S>(src, n, density);
    m.B = src.chance(1, 6) ? gen_dense<S>(src, coord, n, 4) : gen_orthonormal<S>(src, coord, n);
    return m;
}

template <typename S>
void check_diagonal(const Hamiltonianmatrix<S> &h, const Model<S> &old, const std::string &what) {
    int n = static_cast<int>(old.E.rows());
    Dense<S> D = Dense<S>(h.entries()), B = Dense<S>(h.basis());
    VP_CHECK(D.rows() == n && D.cols() == n && B.rows() == old.B.rows() && B.cols() == n, what << ": diagonalizing changed the size");
    Eigen::VectorXd ref = Eigen::SelfAdjointEigenSolver<Dense<S>>(old.E).eigenvalues();
    double scale = std::max(1e-3, std::max(std::abs(ref.minCoeff()), std::abs(ref.maxCoeff())));
    for (int i = 0; i < n; ++i) {
        for (int j = 0; j < n; ++j) {
            VP_CHECK(i == j || D(i, j) == S(0), what << ": the diagonalized operator has the off-diagonal entry " << i << "," << j);
        }
        VP_CHECK(std::abs(D(i, i) - S(ref(i))) <= 1e-11 * scale * n, what << ": eigenvalue " << i << " is " << D(i, i) << " instead of " << ref(i));
        VP_CHECK(std::imag(D(i, i)) == 0, what << ": complex eigenvalue");
        VP_CHECK(i == 0 || std::real(D(i, i)) >= std::real(D(i - 1, i - 1)), what << ": eigenvalues are not ascending");
    }
    // small coefficients (5e-5) are dropped from the vectors on purpose
    double tol = 3e-4 * n;
    Dense<S> G = B.adjoint() * B - old.B.adjoint() * old.B;
    Dense<S> V = old.B.adjoint() * B;
    bool ortho = maxabs<S>(Dense<S>(old.B.adjoint() * old.B - Dense<S>::Identity(n, n))) < 1e-9;
    if (!ortho) {
        return;
    }
    VP_CHECK(maxabs<S>(G) <= tol, what << ": the eigenvectors are not orthonormal, deviation " << maxabs<S>(G));
    Dense<S> R = old.E * V - V * D;
    VP_CHECK(maxabs<S>(R) <= tol * scale, what << ": residual of the eigenvectors " << maxabs<S>(R));
    Dense<S> rec = B * D * B.adjoint() - old.B * old.E * old.B.adjoint();
    VP_CHECK(maxabs<S>(rec) <= tol * scale, what << ": the operator is not reconstructed, deviation " << maxabs<S>(rec));
}

template <typename S>
void history(vp::Src &src) {
    Model<S> m = gen_model<S>(src);
    Hamiltonianmatrix<S> h = make<S>(src, m);
    std::ostringstream tr;
    tr << m.E.rows() << " vectors, " << m.B.rows() << " coordinates:";
    same(h, m, "construction");
    long ops = src.pick(1, 8);
    int done = 0;
    for (long k = 0; k < ops; ++k) {
        int n = static_cast<int>(m.E.rows()), c = static_cast<int>(m.B.rows());
        int op = static_cast<int>(src.pick(0, 15));
        std::string what;
        // the cached serialized form must follow every change
        bool pre = src.flip();
        bytes_t before;
        if (pre) {
            before = h.serialize();
        }
        switch (op) {
        case 0:
        case 1: {
            what = op == 0 ? "sum" : "difference";
            Model<S> o{gen_hermitian<S>(src, n, 4), Dense<S>::Zero(c, n)};
            Hamiltonianmatrix<S> g = make<S>(src, o);
            bool inplace = src.flip();
            if (op == 0) {
                if (inplace) {
                    h += g;
                } else {
                    h = h + g;
                }
                m.E += o.E;
            } else {
                if (inplace) {
                    h -= g;
                } else {
                    h = h - g;
                }
                m.E -= o.E;
            }
            same(g, o, what + " (right operand)");
            break;
        }
        case 2: {
            what = "real scaling";
            double f = src.sym(2);
            if (src.flip()) {
                h = f * h;
            } else {
                h = h * f;
            }
            m.E *= f;
            break;
        }
        case 3: {
            what = "scalar scaling";
            S f = S(src.sym(2)); // stays Hermitian
            if (src.flip()) {
                h = f * h;
            } else {
                h = h * f;
            }
            m.E *= f;
            break;
        }
        case 4: {
            what = "change of basis";
            int k2 = static_cast<int>(src.pick(0, c));
            Dense<S> nb = src.flip() ? gen_orthonormal<S>(src, c, k2) : gen_dense<S>(src, c, k2, 4);
            h = h.changeBasis(sparse<S>(nb));
            Dense<S> T = m.B.adjoint() * nb;
            m.E = (T.adjoint() * m.E * T).eval();
            m.B = nb;
            break;
        }
        case 5: {
            what = "energy cutoff";
            double cut = n && src.flip() ? std::abs(m.E(static_cast<int>(src.pick(0, n - 1)), 0)) + src.of({-0.01, 0., 0.01}) : src.real(0, 4);
            std::vector<int> keep;
            bool close = false;
            for (int i = 0; i < n; ++i) {
                close = close || (std::abs(std::abs(m.E(i, i)) - cut) < 1e-9 * (1 + maxabs<S>(m.E)));
                if (std::abs(m.E(i, i)) < cut) {
                    keep.push_back(i);
                }
            }
            if (close) {
                continue;
            }
            h.applyCutoff(cut);
            Dense<S> E(keep.size(), keep.size()), B(c, keep.size());
            for (size_t i = 0; i < keep.size(); ++i) {
                B.col(i) = m.B.col(keep[i]);
                for (size_t j = 0; j < keep.size(); ++j) {
                    E(i, j) = m.E(keep[i], keep[j]);
                }
            }
            m.E = E;
            m.B = B;
            break;
        }
        case 6:
        case 7: {
            what = "removal of basis vectors";
            std::vector<bool> need(c);
            for (int i = 0; i < c; ++i) {
                need[i] = op == 7 || src.flip();
            }
            std::vector<int> keep;
            bool close = false;
            for (int i = 0; i < n; ++i) {
                double w = 0;
                for (int r = 0; r < c; ++r) {
                    w += need[r] ? std::norm(m.B(r, i)) : 0;
                }
                close = close || near_threshold(w);
                if (w > 0.05) {
                    keep.push_back(i);
                }
            }
            if (close) {
                continue;
            }
            if (op == 6) {
                h.removeUnnecessaryBasisvectors(need);
            } else {
                h.removeUnnecessaryBasisvectors();
            }
            Dense<S> E(keep.size(), keep.size()), B(c, keep.size());
            for (size_t i = 0; i < keep.size(); ++i) {
                B.col(i) = m.B.col(keep[i]);
                for (size_t j = 0; j < keep.size(); ++j) {
                    E(i, j) = m.E(keep[i], keep[j]);
                }
            }
            m.E = E;
            m.B = B;
            break;
        }
        case 8: {
            what = "removal of states";
            std::vector<bool> need(c);
            int left = 0;
            for (int i = 0; i < c; ++i) {
                need[i] = src.chance(6, 8);
                left += need[i];
            }
            h.removeUnnecessaryStates(need);
            Dense<S> B(left, n);
            for (int i = 0, r = 0; i < c; ++i) {
                if (need[i]) {
                    B.row(r++) = m.B.row(i);
                }
            }
            m.B = B;
            break;
        }
        case 9: {
            what = "block";
            std::vector<ptrdiff_t> idx;
            long cnt = n ? src.pick(0, n) : 0;
            for (long i = 0; i < cnt; ++i) {
                idx.push_back(src.pick(0, n - 1));
            }
            if (src.flip()) { // distinct
                std::set<ptrdiff_t> s(idx.begin(), idx.end());
                idx.assign(s.begin(), s.end());
            }
            Hamiltonianmatrix<S> b = h.getBlock(idx);
            same(h, m, what + " (source)");
            Dense<S> E(idx.size(), idx.size()), B(c, idx.size());
            for (size_t i = 0; i < idx.size(); ++i) {
                B.col(i) = m.B.col(idx[i]);
                for (size_t j = 0; j < idx.size(); ++j) {
                    E(i, j) = m.E(idx[i], idx[j]);
                }
            }
            h = b;
            m.E = E;
            m.B = B;
            break;
        }
        case 10: {
            what = "absolute values";
            Model<S> a{m.E.cwiseAbs().template cast<S>(), m.B};
            same(h.abs(), a, what);
            break;
        }
        case 11: {
            what = "necessary states";
            std::vector<bool> need(c), want(c);
            bool close = false;
            for (int r = 0; r < c; ++r) {
                need[r] = src.chance(1, 4);
                double w = m.B.row(r).squaredNorm();
                close = close || near_threshold(w);
                want[r] = need[r] || w > 0.05;
            }
            if (close) {
                continue;
            }
            h.findUnnecessaryStates(need);
            VP_CHECK(need == want, tr.str() << " " << what << ": found " << vp::show(need) << " instead of " << vp::show(want));
            break;
        }
        case 12: {
            what = "diagonalization";
            Model<S> old = m;
            if (n < 2) {
                h.diagonalize();
                break;
            }
            Hamiltonianmatrix<S> full = h;
            if (src.flip()) { // only the lower triangle is needed
                for (int i = 0; i < n; ++i) {
                    for (int j = i + 1; j < n; ++j) {
                        h.entries().coeffRef(i, j) = 0;
                    }
                }
                h.entries().prune(S(0));
            }
            h.diagonalize();
            check_diagonal<S>(h, old, tr.str() + " " + what);
            m.E = Dense<S>(h.entries());
            m.B = Dense<S>(h.basis());
            break;
        }
        case 13: {
            what = "submatrices";
            auto subs = h.findSubs();
            size_t tot = 0;
            for (auto &s : subs) {
                tot += s.num_basisvectors();
            }
            VP_CHECK(subs.size() >= 1 && static_cast<int>(tot) == n, what << ": the submatrices have " << tot << " vectors in total");
            break;
        }
        case 14: {
            what = "rebuild";
            m.E = gen_hermitian<S>(src, n, 4);
            for (int i = 0; i < n; ++i) {
                for (int j = 0; j < n; ++j) {
                    h.addEntries(i, j, m.E(i, j));
                }
            }
            for (int i = 0; i < c; ++i) {
                for (int j = 0; j < n; ++j) {
                    if (m.B(i, j) != S(0)) {
                        h.addBasis(i, j, m.B(i, j));
                    }
                }
            }
            h.compress(n, c);
            break;
        }
        default: {
            what = "direct access";
            if (n) {
                int i = static_cast<int>(src.pick(0, n - 1));
                h.entries().coeffRef(i, i) = S(7);
                h.entries().makeCompressed();
                m.E(i, i) = S(7);
            }
            break;
        }
        }
        tr << " " << what;
        ++done;
        same(h, m, tr.str());
        if (src.flip()) {
            bytes_t b = h.serialize();
            Hamiltonianmatrix<S> g;
            g.deserialize(b);
            same(g, m, tr.str() + " (stored form)");
            VP_CHECK(Dense<S>(g.entries()) == Dense<S>(h.entries()) && Dense<S>(g.basis()) == Dense<S>(h.basis()), tr.str() << ": the stored form is not exact");
            VP_CHECK(g.hashEntries() == h.hashEntries() && g.hashBasis() == h.hashBasis(), tr.str() << ": equal matrices with different hashes");
        }
    }
    VP_NOTE(tr.str());
    vp::nontrivial(m.B.rows() > 1 && done > 1);
}
} // namespace

VP_FACET("operations-real", 12000, 200000, "at least two operations on more than one coordinate") { history<double>(src); }
VP_FACET("operations-complex", 12000, 200000, "at least two operations on more than one coordinate") { history<cd>(src); }

namespace {
template <typename S>
void big_diag(vp::Src &src) {
    int n = static_cast<int>(src.pick(2, 60));
    Model<S> m;
    m.E = Dense<S>::Zero(n, n);
    double scale = src.logreal(1e-3, 1e6);
    for (int i = 0; i < n; ++i) {
        m.E(i, i) = scale * src.pick(-3, 3); // degenerate levels
        for (int t = 0; t < 3; ++t) {
            int j = static_cast<int>(src.pick(0, n - 1));
            if (j < i) {
                S v = scale * scalar<S>(src) * src.logreal(1e-6, 1);
                m.E(i, j) = v;
                m.E(j, i) = conj_(v);
            }
        }
    }
    m.B = gen_orthonormal<S>(src, n + static_cast<int>(src.pick(0, 4)), n);
    VP_NOTE("n=" << n << " scale " << scale);
    Hamiltonianmatrix<S> h(sparse<S>(m.E), sparse<S>(m.B));
    h.diagonalize();
    check_diagonal<S>(h, m, "diagonalization");
    vp::nontrivial();
}
} // namespace
VP_FACET("diagonalize-real", 600, 10000, "always") { big_diag<double>(src); }
VP_FACET("diagonalize-complex", 600, 10000, "always") { big_diag<cd>(src); }

// ---- pairs of one-atom Hamiltonians -----------------------------------------------------------
namespace {
struct OneAtom {
    std::shared_ptr<BasisnamesOne> basis;
};
Configuration conf(int n1, int l1, int n2, int l2, int dn, int dl, int dm) {
    Configuration c;
    c["species1"] << "Rb";
    c["species2"] << "Rb";
    c["n1"] << n1;
    c["l1"] << l1;
    c["j1"] << l1 + 0.5;
    c["m1"] << 0.5;
    c["n2"] << n2;
    c["l2"] << l2;
    c["j2"] << l2 + 0.5;
    c["m2"] << 0.5;
    c["deltaNSingle"] << dn;
    c["deltaLSingle"] << dl;
    c["deltaJSingle"] << 1;
    c["deltaMSingle"] << dm;
    c["missingCalc"] << "true";
    c["missingWhittaker"] << "false";
    return c;
}
// A diagonal one-atom Hamiltonian: eigenvectors within the classes of equal parity and m (equal
// coefficients for m and -m if mirrored), or unrestricted
template <typename S>
Model<S> one_atom(vp::Src &src, const BasisnamesOne &b, int kind) {
    int n = static_cast<int>(b.size());
    Model<S> m{Dense<S>::Zero(n, n), Dense<S>::Identity(n, n)};
    auto energy = [&] { return src.flip() ? src.sym(10) : static_cast<double>(src.pick(-3, 3)); };
    auto rotate = [&](int p, int q, double phi) {
        Eigen::Matrix<S, Eigen::Dynamic, 1> a = m.B.col(p), c = m.B.col(q);
        m.B.col(p) = std::cos(phi) * a - std::sin(phi) * c;
        m.B.col(q) = std::sin(phi) * a + std::cos(phi) * c;
    };
    std::map<std::array<int, 4>, int> at; // n,l,2j,2m
    for (int i = 0; i < n; ++i) {
        auto s = b.get(i);
        at[{s.n, s.l, static_cast<int>(2 * s.j), static_cast<int>(std::lround(2 * s.m))}] = static_cast<int>(s.idx);
    }
    for (int i = 0; i < n; ++i) {
        m.E(i, i) = energy();
    }
    if (kind == 0) { // unrestricted
        m.B = gen_orthonormal<S>(src, n, n);
        return m;
    }
    // mirrored: energies and rotations the same for m and -m
    for (auto &kv : at) {
        auto k = kv.first;
        k[3] = -k[3];
        if (kv.first[3] > 0 && at.count(k)) {
            m.E(at[k], at[k]) = m.E(kv.second, kv.second);
        }
    }
    if (kind == 2) { // no mixing
        return m;
    }
    long rot = src.pick(0, 6);
    std::vector<std::array<int, 4>> keys;
    for (auto &kv : at) {
        if (kv.first[3] > 0) {
            keys.push_back(kv.first);
        }
    }
    for (long t = 0; t < rot; ++t) {
        auto p = keys[src.pick(0, static_cast<long>(keys.size()) - 1)], q = keys[src.pick(0, static_cast<long>(keys.size()) - 1)];
        if (p == q || p[3] != q[3] || (p[1] - q[1]) % 2 != 0) {
            continue;
        }
        double phi = src.real(0, 3);
        rotate(at[p], at[q], phi);
        double sign = ((p[1] + q[1]) - (p[2] - q[2]) / 2) % 2 == 0 ? 1 : -1; // relative reflection phase of the two states, (-1)^(l+m-j)
        auto pm = p, qm = q;
        pm[3] = -p[3];
        qm[3] = -q[3];
        if (at.count(pm) && at.count(qm)) {
            rotate(at[pm], at[qm], sign * phi);
        }
    }
    return m;
}
template <typename S>
void pairs(vp::Src &src, int mode) {
    bool same = mode != 0;
    Configuration cf = conf(4, static_cast<int>(src.pick(0, 2)), 4 + static_cast<int>(src.pick(0, 1)), static_cast<int>(src.pick(0, 2)), 0, static_cast<int>(src.pick(0, 1)), static_cast<int>(src.pick(1, 2)));
    bool separate = !same && src.flip(); // a basis of its own for each atom
    auto b1 = std::make_shared<BasisnamesOne>(separate ? BasisnamesOne::fromFirst(cf) : BasisnamesOne::fromBoth(cf));
    auto b2 = separate ? std::make_shared<BasisnamesOne>(BasisnamesOne::fromSecond(cf)) : b1;
    if (same) { // symmetric in m
        std::vector<bool> need(b1->dim(), false);
        std::set<std::array<int, 4>> have;
        for (const auto &s : *b1) {
            have.insert({s.n, s.l, static_cast<int>(2 * s.j), static_cast<int>(std::lround(2 * s.m))});
        }
        for (const auto &s : *b1) {
            need[s.idx] = have.count({s.n, s.l, static_cast<int>(2 * s.j), static_cast<int>(std::lround(-2 * s.m))}) != 0;
        }
        b1->removeUnnecessaryStates(need);
    } else {
        std::vector<bool> need(b1->dim(), true); // renumber
        b1->removeUnnecessaryStates(need);
        if (separate) {
            for (size_t i = 0; i < need.size(); ++i) { // some states fewer
                need[i] = !src.chance(1, 4);
            }
            need.resize(b2->dim(), true);
            b2->removeUnnecessaryStates(need);
        }
    }
    auto two = separate ? std::make_shared<BasisnamesTwo>(b1, b2) : std::make_shared<BasisnamesTwo>(b1);
    int n = static_cast<int>(b1->size()), n2 = static_cast<int>(b2->size());
    if (n > 14 || n == 0 || n2 > 14 || n2 == 0) {
        throw vp::Discard();
    }
    int kind = mode == 0 ? 0 : mode == 1 ? 1 : 2;
    Model<S> m1 = one_atom<S>(src, *b1, kind);
    Model<S> m2 = same ? m1 : one_atom<S>(src, *b2, kind);
    // drop some eigenvectors (energy cutoff in the one-atom Hamiltonian)
    if (!same && src.flip()) {
        int k = static_cast<int>(src.pick(1, n2));
        m2.E = m2.E.topLeftCorner(k, k).eval();
        m2.B = m2.B.leftCols(k).eval();
    }
    Hamiltonianmatrix<S> h1(sparse<S>(m1.E), sparse<S>(m1.B)), h2(sparse<S>(m2.E), sparse<S>(m2.B));
    // zero energies must stay on the diagonal as well
    double cut = src.flip() ? -1 : src.real(0, 12);
    // reference: all products
    int k1 = static_cast<int>(m1.E.rows()), k2 = static_cast<int>(m2.E.rows()), c = n * n2;
    Dense<S> P(c, k1 * k2);
    std::vector<double> e(k1 * k2);
    std::vector<int> in;
    for (int i = 0; i < k1; ++i) {
        for (int j = 0; j < k2; ++j) {
            int col = i * k2 + j;
            e[col] = std::real(m1.E(i, i)) + std::real(m2.E(j, j));
            for (int r = 0; r < n; ++r) {
                for (int s = 0; s < n2; ++s) {
                    P(r * n2 + s, col) = m1.B(r, i) * m2.B(s, j);
                }
            }
            if (cut >= 0 && std::abs(std::abs(e[col]) - cut) < 1e-9) {
                throw vp::Discard();
            }
            if (cut < 0 || std::abs(e[col]) < cut) {
                in.push_back(col);
            }
        }
    }
    std::ostringstream w;
    w << (std::is_same<S, double>::value ? "real" : "complex") << " mode " << mode << " n=" << n << "," << n2 << " cut=" << cut;
    // energy cutoff on coordinates
    {
        std::vector<bool> nec(c), want(c);
        for (int r = 0; r < c; ++r) {
            nec[r] = want[r] = src.chance(1, 8);
        }
        energycutoff(h1, h2, cut, nec);
        for (int col : in) {
            for (int r = 0; r < c; ++r) {
                want[r] = want[r] || P(r, col) != S(0);
            }
        }
        VP_CHECK(nec == want, w.str() << ": the states needed within the energy cutoff are wrong");
    }
    // sectors
    std::vector<Symmetry> sectors;
    std::vector<parity_t> inv{NA}, per{NA}, ref{NA};
    bool rot = false;
    if (mode != 0) {
        if (src.flip()) {
            inv = {EVEN, ODD};
        }
        if (src.flip()) {
            per = {EVEN, ODD};
        }
        if (src.flip()) {
            ref = {EVEN, ODD};
        }
        rot = src.flip();
        if (mode == 1 && ref.size() == 2 && (inv.size() == 2 || per.size() == 2) && vp::known("KF-C11-1")) {
            throw vp::Discard();
        }
    }
    std::set<int> Ms;
    for (const auto &s : *two) {
        int M = static_cast<int>(std::lround(s.m[0] + s.m[1]));
        Ms.insert(ref.size() == 2 ? std::abs(M) : M);
    }
    if (!rot) {
        Ms = {static_cast<int>(NA)};
    }
    for (auto i : inv) {
        for (auto p : per) {
            for (auto r : ref) {
                for (int M : Ms) {
                    Symmetry s;
                    s.inversion = i;
                    s.permutation = p;
                    s.reflection = r;
                    s.rotation = M;
                    sectors.push_back(s);
                }
            }
        }
    }
    w << " inversion " << (inv.size() == 2) << " permutation " << (per.size() == 2) << " reflection " << (ref.size() == 2) << " rotation " << rot;
    VP_NOTE(w.str());
    Dense<S> all(c, 0);
    std::vector<double> ee;
    for (auto &s : sectors) {
        Hamiltonianmatrix<S> h = combine(h1, h2, cut, two, s);
        Dense<S> E = Dense<S>(h.entries()), B = Dense<S>(h.basis());
        VP_CHECK(B.rows() == c && E.rows() == B.cols() && E.cols() == B.cols(), w.str() << ": sizes of the pair Hamiltonian");
        std::ostringstream ws;
        ws << w.str() << " sector " << s.inversion << " " << s.permutation << " " << s.reflection << " " << s.rotation;
        for (int i = 0; i < E.rows(); ++i) {
            for (int j = 0; j < E.rows(); ++j) {
                VP_CHECK(i == j || E(i, j) == S(0), ws.str() << ": off-diagonal entries in the pair Hamiltonian");
            }
            ee.push_back(std::real(E(i, i)));
            VP_CHECK(std::imag(E(i, i)) == 0, ws.str() << ": complex pair energy");
        }
        long at = all.cols();
        all.conservativeResize(c, at + B.cols());
        all.rightCols(B.cols()) = B;
        // every vector has the symmetry of its sector
        for (int v = 0; v < B.cols(); ++v) {
            for (const auto &st : *two) {
                S x = B(st.idx, v);
                if (std::abs(x) < 1e-12) {
                    continue;
                }
                int i = static_cast<int>(st.idx) / n, j = static_cast<int>(st.idx) % n;
                int M = static_cast<int>(std::lround(st.m[0] + st.m[1]));
                double pl = (st.l[0] + st.l[1]) % 2 == 0 ? 1 : -1;
                int pj = static_cast<int>(std::lround(st.j[0] + st.j[1]));
                S swapped = same ? B(j * n + i, v) : S(0);
                if (s.inversion != NA) {
                    VP_CHECK(std::abs(swapped - S(s.inversion == EVEN ? -pl : pl) * x) < 1e-9, ws.str() << ": vector " << v << " has no inversion symmetry");
                }
                if (s.permutation != NA) {
                    VP_CHECK(std::abs(swapped - S(s.permutation == EVEN ? -1. : 1.) * x) < 1e-9, ws.str() << ": vector " << v << " has no permutation symmetry");
                }
                if (s.rotation != static_cast<int>(NA)) {
                    VP_CHECK(M == s.rotation || (s.reflection != NA && M == -s.rotation), ws.str() << ": vector " << v << " contains the momentum " << M);
                }
                if (s.reflection != NA) {
                    int mi = -1;
                    for (const auto &t : *two) {
                        if (t.n == st.n && t.l == st.l && t.j == st.j && t.m[0] == -st.m[0] && t.m[1] == -st.m[1]) {
                            mi = static_cast<int>(t.idx);
                        }
                    }
                    double ph = pl * ((pj + M) % 2 == 0 ? 1 : -1) * (s.reflection == EVEN ? 1 : -1);
                    VP_CHECK(mi >= 0 && std::abs(B(mi, v) - ph * x) < 1e-9, ws.str() << ": vector " << v << " has no reflection symmetry");
                }
            }
        }
    }
    VP_CHECK(all.cols() == static_cast<long>(in.size()), w.str() << ": " << all.cols() << " pair vectors in all sectors instead of " << in.size());
    if (in.empty()) {
        return;
    }
    vp::nontrivial(in.size() > 1);
    vp::label(std::string(inv.size() == 2 ? "i" : "-") + (per.size() == 2 ? "p" : "-") + (ref.size() == 2 ? "r" : "-") + (rot ? "m" : "-"));
    // orthonormal
    Dense<S> G = all.adjoint() * all - Dense<S>::Identity(all.cols(), all.cols());
    VP_CHECK(maxabs<S>(G) < 1e-9, w.str() << ": the pair vectors of all sectors are not orthonormal, deviation " << maxabs<S>(G));
    // same space and same operator as the products
    Dense<S> Pin(c, in.size());
    Dense<S> H = Dense<S>::Zero(c, c), H2 = Dense<S>::Zero(c, c);
    std::vector<double> want;
    for (size_t i = 0; i < in.size(); ++i) {
        Pin.col(i) = P.col(in[i]);
        want.push_back(e[in[i]]);
        H += S(e[in[i]]) * Pin.col(i) * Pin.col(i).adjoint();
        H2 += S(ee[i]) * all.col(i) * all.col(i).adjoint();
    }
    VP_CHECK(maxabs<S>(Dense<S>(Pin * Pin.adjoint() - all * all.adjoint())) < 1e-9, w.str() << ": the sectors do not span the pair space");
    VP_CHECK(maxabs<S>(Dense<S>(H - H2)) < 1e-8, w.str() << ": the pair Hamiltonian of the sectors differs from the sum of the one-atom Hamiltonians by " << maxabs<S>(Dense<S>(H - H2)));
    std::sort(want.begin(), want.end());
    std::sort(ee.begin(), ee.end());
    for (size_t i = 0; i < ee.size(); ++i) {
        VP_CHECK(vp::near(ee[i], want[i], 1e-12, 1e-12), w.str() << ": pair energies");
    }
}
} // namespace
VP_FACET("combine-real", 800, 10000, "at least two pair vectors") { pairs<double>(src, 0); }
VP_FACET("combine-complex", 800, 10000, "at least two pair vectors") { pairs<cd>(src, 0); }
VP_FACET("symmetry-mixed", 1200, 15000, "at least two pair vectors") { if (src.flip()) { pairs<cd>(src, 1); } else { pairs<double>(src, 1); } }
VP_FACET("symmetry-plain", 1200, 15000, "at least two pair vectors") { if (src.flip()) { pairs<cd>(src, 2); } else { pairs<double>(src, 2); } }

VP_PROBE("KF-C11-1", "the product of two mirrored field-mixed eigenvectors under permutation and reflection") {
    auto b = std::make_shared<BasisnamesOne>(BasisnamesOne::fromBoth(conf(4, 0, 5, 0, 0, 0, 1)));
    auto two = std::make_shared<BasisnamesTwo>(b);
    int n = static_cast<int>(b->size());
    VP_CHECK(n == 4, "basis");
    Model<double> m{Dense<double>::Zero(n, n), Dense<double>::Zero(n, n)};
    for (const auto &s : *b) {
        int k = s.n == 4 ? 0 : 1, v = s.m > 0 ? 1 : 0;
        // columns: 0,1 lower level m=-1/2,+1/2; 2,3 upper level
        m.B(s.idx, 0 + v) = k == 0 ? std::cos(0.5) : std::sin(0.5);
        m.B(s.idx, 2 + v) = k == 0 ? -std::sin(0.5) : std::cos(0.5);
    }
    for (int i = 0; i < n; ++i) {
        m.E(i, i) = i < 2 ? 1 : 2;
    }
    Hamiltonianmatrix<double> h(sparse<double>(m.E), sparse<double>(m.B));
    long count = 0;
    double worst = 0;
    for (parity_t p : {EVEN, ODD}) {
        for (parity_t r : {EVEN, ODD}) {
            Symmetry s;
            s.inversion = NA;
            s.permutation = p;
            s.reflection = r;
            s.rotation = 0;
            auto c = combine(h, h, -1, two, s);
            count += static_cast<long>(c.num_basisvectors());
            Dense<double> B = Dense<double>(c.basis());
            worst = std::max(worst, maxabs<double>(Dense<double>(B.transpose() * B - Dense<double>::Identity(B.cols(), B.cols()))));
        }
    }
    VP_CHECK(count == 8 && worst < 1e-9, count << " vectors with total momentum 0 instead of 8, deviation from orthonormality " << worst);
}
