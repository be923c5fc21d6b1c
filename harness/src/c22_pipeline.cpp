// C22: the calculation pipeline (configuration file in, result files out) against the direct
// construction of the same systems, and against itself with warm caches and other thread counts.
#include "pipeline.hpp"

using namespace pl;

namespace {
const char *alkali[] = {"Rb", "Cs", "Li", "Na", "K"};
std::string gen_species(vp::Src &src) { return alkali[src.choice(4)]; }

// one section of one-atom results against the Hamiltonian of the documented basis
void check_one(const Conf &c, const Section &s, const std::vector<Atom> &init, bool &mixed) {
    sm::whittaker = !is(c, "missingCalc");
    auto want = basis(c, init);
    auto st = states_one(s, init[0].species);
    VP_CHECK(std::set<StateOne>(st.begin(), st.end()) == std::set<StateOne>(want.begin(), want.end()) && st.size() == want.size(), "section " << s.type << ": the basis has " << st.size() << " states, " << want.size() << " states satisfy the restrictions");
    VP_CHECK(s.bas == static_cast<int>(st.size()), "section " << s.type << ": " << s.bas << " states announced, " << st.size() << " delivered");
    int steps = steps_one(c);
    VP_CHECK(s.tot == steps, "section " << s.type << ": " << s.tot << " instead of " << steps << " steps");
    double mean = 0;
    for (auto &a : init) {
        mean += a.state().getEnergy(sm::cache()) / static_cast<double>(init.size());
    }
    for (auto &b : s.out) {
        double pos = position(b.step, steps);
        sm::One o = one(c, init[0].species, pos);
        Eigen::MatrixXd mag;
        Mat h = sm::reference(o, st, &mag);
        h.diagonal().array() -= mean;
        double big = mag.size() ? mag.maxCoeff() : 0, tol = 1e-6 * big * std::sqrt(static_cast<double>(st.size())) + 1e-6;
        auto ref = sm::spectrum(h);
        std::vector<double> got(b.e.data(), b.e.data() + b.e.size());
        double d = sm::distance(got, ref);
        VP_CHECK(d <= tol, "section " << s.type << " step " << b.step << ": " << got.size() << " energies differ from those of the Hamiltonian by " << d << " GHz, allowed " << tol);
        VP_CHECK(std::is_sorted(got.begin(), got.end()) || s.tot > 0, "");
        double n = 3e-4 * std::sqrt(1. + static_cast<double>(got.size()));
        VP_CHECK(b.v.rows() == static_cast<Eigen::Index>(st.size()), "eigenvectors of " << b.v.rows() << " instead of " << st.size() << " components");
        Mat one = Mat::Identity(b.v.cols(), b.v.cols());
        VP_CHECK(sm::maxabs(b.v.adjoint() * b.v - one) <= n, "section " << s.type << " step " << b.step << ": eigenvectors are not orthonormal");
        double res = sm::maxabs(h * b.v - b.v * b.e.cast<cd>().asDiagonal());
        double scale = got.empty() ? 0 : std::max(std::abs(ref.front()), std::abs(ref.back()));
        VP_CHECK(res <= n * (scale + big) + tol, "section " << s.type << " step " << b.step << ": H v - E v = " << res << " GHz");
        for (Eigen::Index k = 0; k < b.v.cols(); ++k) {
            mixed = mixed || b.v.col(k).cwiseAbs().maxCoeff() < 0.99;
        }
        // the stored parameters are those of the step
        const char *ax = "xyz";
        for (int i = 0; i < 3; ++i) {
            std::string a(1, ax[i]);
            VP_CHECK(vp::near(number(b.params, "E" + a), o.e[i], 1e-12, 1e-300) && vp::near(number(b.params, "B" + a), o.b[i], 1e-12, 1e-300), "section " << s.type << " step " << b.step << ": stored fields " << number(b.params, "E" + a) << ", " << number(b.params, "B" + a) << " instead of " << o.e[i] << ", " << o.b[i]);
        }
    }
    sm::whittaker = false;
}
Conf gen_single(vp::Src &src, bool &complex, bool zonly = false) {
    Conf c;
    Atom a = gen_atom(src, gen_species(src));
    put(c, a, "1");
    c["samebasis"] = "false";
    gen_common(src, c);
    complex = !zonly && src.flip();
    gen_fields(src, c, complex, zonly, a.n);
    if (basis(c, {a}).size() > 80) {
        c["deltaNSingle"] = "0";
        c["deltaLSingle"] = "1";
        if (basis(c, {a}).size() > 80) {
            throw vp::Discard();
        }
    }
    return c;
}
} // namespace

VP_FACET("one-atom calculations", 400, 4000, "more than one step or coupled states") {
    bool complex = false, mixed = false;
    Conf c = gen_single(src, complex);
    std::vector<Atom> init = {atom(c, "1")};
    bool both = src.chance(1, 3);
    std::string kind = "first";
    if (both) {
        Atom b = init[0];
        int how = static_cast<int>(src.choice(2));
        if (how > 0) {
            b = gen_atom(src, init[0].species);
            b.n = init[0].n + static_cast<int>(src.pick(-1, 2));
        }
        put(c, b, "2");
        if (how == 2) {
            c["samebasis"] = "true";
            kind = "combined";
            init.push_back(b);
        } else {
            kind = "both";
        }
        if (basis(c, {b}).size() > 80 || basis(c, init).size() > 120) {
            throw vp::Discard();
        }
    }
    int threads = static_cast<int>(src.pick(1, 6));
    VP_NOTE(kind << (complex ? " complex " : " real ") << threads << " threads: " << text(c));
    vp::label(kind);
    Run r = run(c, vp::fresh_dir("cache"), complex, threads);
    if (kind == "combined") {
        VP_CHECK(r.sections.size() == 1 && r.find(3), "sections of a calculation with a common basis");
        check_one(c, *r.find(3), init, mixed);
    } else {
        VP_CHECK(r.sections.size() == (kind == "both" ? 2u : 1u) && r.find(0), "sections of a calculation");
        check_one(c, *r.find(0), init, mixed);
        if (kind == "both") {
            VP_CHECK(r.find(1), "second atom is missing");
            check_one(c, *r.find(1), {atom(c, "2")}, mixed);
        }
    }
    vp::nontrivial(mixed || r.sections[0].tot > 1);
}

namespace {
struct PairSpec {
    Conf c;
    bool complex = false, fields = false;
    std::vector<Atom> init;
};
int index(const Conf &params, const std::string &k, int none) {
    auto it = params.find(k);
    return it == params.end() || it->second.empty() ? none : std::stoi(it->second);
}
PairSpec gen_pair(vp::Src &src, bool symmetric, int limit = 24) {
    PairSpec p;
    Conf &c = p.c;
    Atom a = gen_atom(src, gen_species(src)), b = a;
    bool same = symmetric ? !src.chance(1, 5) : src.flip();
    if (src.flip()) {
        b = gen_atom(src, same || src.flip() ? a.species : gen_species(src));
        b.n = a.n + static_cast<int>(src.pick(0, 2));
    }
    put(c, a, "1");
    put(c, b, "2");
    c["samebasis"] = same ? "true" : "false";
    gen_common(src, c);
    p.complex = src.flip();
    int kind = static_cast<int>(src.choice(2)); // fields: none, along z, any
    if (symmetric && kind == 2) {
        kind = 1;
    }
    if (kind == 0) {
        for (std::string f : {"Ex", "Ey", "Ez", "Bx", "By", "Bz"}) {
            c["min" + f] = c["max" + f] = "0";
        }
    } else {
        gen_fields(src, c, p.complex, kind == 1, a.n);
    }
    c["deltaNPair"] = c["deltaLPair"] = c["deltaJPair"] = c["deltaMPair"] = "-1";
    bool anyfield = false, efield = false, bfield = false;
    for (std::string f : {"Ex", "Ey", "Ez", "Bx", "By", "Bz"}) {
        if (number(c, "min" + f) != 0 || number(c, "max" + f) != 0) {
            anyfield = true;
            (f[0] == 'E' ? efield : bfield) = true;
        }
    }
    p.fields = anyfield;
    c["exponent"] = std::to_string(src.pick(3, 5));
    if (src.chance(1, 8)) {
        c["exponent"] = "2";
    }
    if (src.chance(1, 3)) {
        c["exponent"] = "3";
    }
    for (std::string k : {"conserveM", "sametrafo", "invE", "invO", "perE", "perO", "refE", "refO"}) {
        c[k] = "false";
    }
    c["zerotheta"] = "true";
    if (symmetric) {
        if (src.chance(2, 3)) {
            c["conserveM"] = "true";
        }
        if (same && !efield && src.flip()) {
            c["invE"] = c["invO"] = "true";
        }
        if (same && number(c, "exponent") <= 3 && src.flip()) {
            c["perE"] = c["perO"] = "true";
        }
        bool ip = is(c, "invE") || is(c, "perE");
        if (!bfield && (!anyfield || !ip) && src.flip()) {
            c["refE"] = c["refO"] = "true";
            c["deltaMSingle"] = "-1";
        }
        if (src.chance(1, 3)) {
            c["sametrafo"] = "true";
            if (!anyfield && src.flip()) {
                c["zerotheta"] = "false";
            }
        } else if (src.chance(1, 4)) { // only a part of the blocks
            for (std::string k : {"invE", "invO", "perE", "perO", "refE", "refO"}) {
                if (src.chance(1, 3)) {
                    c[k] = "false";
                }
            }
        }
        if (is(c, "sametrafo") && a.m + b.m != 0) { // the front end uses the reflection for M = 0 only
            c["refE"] = c["refO"] = "false";
        }
    }
    if (!anyfield && src.chance(1, 3)) {
        c["deltaNPair"] = src.flip() ? "-1" : std::to_string(src.choice(1));
        c["deltaLPair"] = src.flip() ? "-1" : std::to_string(src.choice(2));
        c["deltaJPair"] = src.flip() ? "-1" : std::to_string(src.choice(2));
        if (!is(c, "refE") && !is(c, "refO")) {
            c["deltaMPair"] = src.flip() ? "-1" : std::to_string(src.choice(2));
        }
    }
    p.init = {a, b};
    auto count = [&] {
        return same ? basis(c, {a, b}).size() : std::max(basis(c, {a}).size(), basis(c, {b}).size());
    };
    if (static_cast<int>(count()) > limit) {
        c["deltaNSingle"] = "0";
    }
    if (static_cast<int>(count()) > limit) {
        c["deltaLSingle"] = "1";
    }
    if (static_cast<int>(count()) > limit) {
        c["deltaJSingle"] = "1";
    }
    if (static_cast<int>(count()) > limit) {
        throw vp::Discard();
    }
    c["deltaEPair"] = src.chance(1, 4) ? "-1" : num(src.logreal(5, 1000));
    int nn = std::max(a.n, b.n);
    double r = sm::gen_distance(src, nn) / 2;
    c["minR"] = num(r);
    c["maxR"] = src.flip() ? num(r) : num(sm::gen_distance(src, nn) / 2);
    return p;
}

struct PairCheck {
    bool coupled = false;
    int blocks = 0;
};
PairCheck check_pair(const PairSpec &p, const Run &r) {
    const Conf &c = p.c;
    PairCheck res;
    bool same = is(c, "samebasis");
    const Section *s1 = r.find(same ? 3 : 0), *s2 = r.find(same ? 3 : 1), *s = r.find(2);
    VP_CHECK(s1 && s2 && s && r.sections.size() == (same ? 2u : 3u), "parts of a two-atom calculation");
    bool mixed = false;
    if (same) {
        check_one(c, *s1, p.init, mixed);
    } else {
        check_one(c, *s1, {p.init[0]}, mixed);
        check_one(c, *s2, {p.init[1]}, mixed);
    }
    sm::whittaker = !is(c, "missingCalc");
    auto full1 = states_one(*s1, p.init[0].species), full2 = states_one(*s2, p.init[1].species);
    // one-atom states of the pair basis
    auto restricted = [&](const std::vector<StateOne> &v, const std::vector<Atom> &init) {
        std::vector<int> idx;
        for (size_t i = 0; i < v.size(); ++i) {
            bool n = false, l = false, j = false, m = false;
            for (auto &a : init) {
                auto in = [](double x, double d) { return d < 0 || std::abs(x) <= d; };
                n = n || in(v[i].getN() - a.n, number(c, "deltaNPair"));
                l = l || in(v[i].getL() - a.l, number(c, "deltaLPair"));
                j = j || in(v[i].getJ() - a.j, number(c, "deltaJPair"));
                m = m || in(v[i].getM() - a.m, number(c, "deltaMPair"));
            }
            if (n && l && j && m) {
                idx.push_back(static_cast<int>(i));
            }
        }
        return idx;
    };
    auto idx1 = restricted(full1, same ? p.init : std::vector<Atom>{p.init[0]}), idx2 = restricted(full2, same ? p.init : std::vector<Atom>{p.init[1]});
    std::vector<StateTwo> st;
    for (int i : idx1) {
        for (int j : idx2) {
            st.emplace_back(full1[i], full2[j]);
        }
    }
    VP_CHECK(s->states.size() == st.size(), "the pair basis has " << s->states.size() << " states instead of " << st.size());
    for (size_t i = 0; i < st.size(); ++i) {
        auto &x = s->states[i];
        StateOne a = st[i].getFirstState(), b = st[i].getSecondState();
        std::vector<double> want = {static_cast<double>(i), static_cast<double>(a.getN()), static_cast<double>(a.getL()), a.getJ(), a.getM(), static_cast<double>(b.getN()), static_cast<double>(b.getL()), b.getJ(), b.getM()};
        VP_CHECK(x == want, "pair state " << i << " is listed as " << vp::show(x));
    }
    auto N = static_cast<Eigen::Index>(st.size());
    auto dim2 = static_cast<Eigen::Index>(idx2.size());
    int steps1 = steps_one(c), steps2 = steps1 == 1 && number(c, "minR") == number(c, "maxR") ? 1 : static_cast<int>(number(c, "steps"));
    int nb = s->out.empty() ? 0 : s->out[0].nblocks;
    res.blocks = nb;
    VP_CHECK(s->tot == steps2 * nb, s->tot << " results for " << steps2 << " steps with " << nb << " blocks");
    double mean1 = 0, mean2 = 0;
    double e1 = p.init[0].state().getEnergy(sm::cache()), e2 = p.init[1].state().getEnergy(sm::cache());
    mean1 = same ? (e1 + e2) / 2 : e1;
    mean2 = same ? (e1 + e2) / 2 : e2;
    double cut = number(c, "deltaEPair");
    for (int step = 0; step < steps2; ++step) {
        std::ostringstream w;
        w << "step " << step;
        double pos = position(step, steps2);
        Mat h1 = sm::reference(one(c, p.init[0].species, steps1 > 1 ? pos : 0), full1), h2 = sm::reference(one(c, p.init[1].species, steps1 > 1 ? pos : 0), full2);
        h1.diagonal().array() -= mean1;
        h2.diagonal().array() -= mean2;
        Eigen::SelfAdjointEigenSolver<Mat> es1(h1), es2(h2);
        std::vector<std::pair<int, int>> in;
        std::vector<double> e;
        for (int i = 0; i < h1.cols(); ++i) {
            for (int j = 0; j < h2.cols(); ++j) {
                double x = es1.eigenvalues()[i] + es2.eigenvalues()[j];
                if (cut >= 0 && std::abs(std::abs(x) - cut) < 1e-5) {
                    throw vp::Discard();
                }
                if (cut < 0 || std::abs(x) < cut) {
                    in.emplace_back(i, j);
                    e.push_back(x);
                }
            }
        }
        std::vector<Eigen::VectorXcd> cols;
        std::vector<double> ein;
        for (size_t k = 0; k < in.size(); ++k) {
            Eigen::VectorXcd v(N);
            for (size_t a = 0; a < idx1.size(); ++a) {
                for (size_t b = 0; b < idx2.size(); ++b) {
                    v[static_cast<Eigen::Index>(a) * dim2 + static_cast<Eigen::Index>(b)] = es1.eigenvectors()(idx1[a], in[k].first) * es2.eigenvectors()(idx2[b], in[k].second);
                }
            }
            double nrm = v.squaredNorm();
            if (nrm > 0.01 && std::abs(nrm - 1) > 1e-9) {
                throw vp::Discard(); // degenerate levels of which only a part belongs to the pair basis
            }
            if (nrm > 0.5) {
                cols.push_back(v);
                ein.push_back(e[k]);
            }
        }
        auto K = static_cast<Eigen::Index>(cols.size());
        Mat P(N, K);
        for (Eigen::Index k = 0; k < K; ++k) {
            P.col(k) = cols[k];
        }
        double R = number(c, "minR") + pos * (number(c, "maxR") - number(c, "minR"));
        Mat V = Mat::Zero(N, N);
        Eigen::MatrixXd mag = Eigen::MatrixXd::Zero(N, N);
        sm::multipoles(st, {{0, 0, R}}, static_cast<unsigned>(number(c, "exponent")), false, V, mag);
        Mat H = P.adjoint() * V * P;
        double big = sm::maxabs(H), scale = big;
        for (Eigen::Index k = 0; k < K; ++k) {
            H(k, k) += ein[k];
            scale = std::max(scale, std::abs(ein[k]));
        }
        res.coupled = res.coupled || big > 1e-5;
        double root = std::sqrt(1. + static_cast<double>(K)), n = 3e-4 * root;
        Mat all(N, 0);
        std::vector<double> got;
        for (int b = 0; b < nb; ++b) {
            const Block &o = s->out[static_cast<size_t>(step * nb + b)];
            VP_CHECK(o.v.rows() == N, w.str() << ": eigenvectors of " << o.v.rows() << " instead of " << N << " components");
            VP_CHECK(vp::near(number(o.params, "R"), R, 1e-12), w.str() << ": stored distance " << number(o.params, "R") << " instead of " << R);
            Eigen::Index at = all.cols();
            all.conservativeResize(N, at + o.v.cols());
            all.rightCols(o.v.cols()) = o.v;
            got.insert(got.end(), o.e.data(), o.e.data() + o.e.size());
            int inv = index(o.params, "inversion", 0), per = index(o.params, "permutation", 0), ref = index(o.params, "reflection", 0), rot = index(o.params, "rotation", 1000);
            for (Eigen::Index i = 0; i < N; ++i) {
                StateOne a = st[i].getFirstState(), z = st[i].getSecondState();
                double pl = (a.getL() + z.getL()) % 2 == 0 ? 1 : -1;
                int M = static_cast<int>(std::lround(a.getM() + z.getM())), J = static_cast<int>(std::lround(a.getJ() + z.getJ()));
                Eigen::Index sw = (i % dim2) * dim2 + i / dim2;
                for (Eigen::Index k = 0; k < o.v.cols(); ++k) {
                    if (rot != 1000) {
                        VP_CHECK(std::abs(o.v(i, k)) < 1e-3 || M == rot || (ref != 0 && M == -rot), w.str() << ": block with momentum " << rot << " contains the momentum " << M);
                    }
                    if (inv != 0) {
                        VP_CHECK(std::abs(o.v(sw, k) - (inv == EVEN ? -pl : pl) * o.v(i, k)) < n, w.str() << ": block " << b << " has no inversion symmetry");
                    }
                    if (per != 0) {
                        VP_CHECK(std::abs(o.v(sw, k) - (per == EVEN ? -1. : 1.) * o.v(i, k)) < n, w.str() << ": block " << b << " has no permutation symmetry");
                    }
                    if (ref != 0) {
                        Eigen::Index mi = -1;
                        for (Eigen::Index q = 0; q < N; ++q) {
                            if (st[q] == StateTwo(StateOne(a.getSpecies(), a.getN(), a.getL(), a.getJ(), -a.getM()), StateOne(z.getSpecies(), z.getN(), z.getL(), z.getJ(), -z.getM()))) {
                                mi = q;
                            }
                        }
                        double ph = pl * ((J + M) % 2 == 0 ? 1 : -1) * (ref == EVEN ? 1 : -1);
                        VP_CHECK(mi >= 0 && std::abs(o.v(mi, k) - ph * o.v(i, k)) < n, w.str() << ": block " << b << " has no reflection symmetry");
                    }
                }
            }
        }
        VP_CHECK(sm::maxabs(all.adjoint() * all - Mat::Identity(all.cols(), all.cols())) <= n, w.str() << ": the eigenvectors of all blocks are not orthonormal, deviation " << sm::maxabs(all.adjoint() * all - Mat::Identity(all.cols(), all.cols())));
        Mat X = P.adjoint() * all;
        for (Eigen::Index k = 0; k < X.cols(); ++k) {
            VP_CHECK(std::abs(X.col(k).squaredNorm() - 1) <= n, w.str() << ": an eigenvector leaves the space of the products within the energy cutoff, weight " << X.col(k).squaredNorm());
            double d = (H * X.col(k) - got[k] * X.col(k)).cwiseAbs().maxCoeff();
            VP_CHECK(d <= n * (scale + 1e-3), w.str() << ": H v - E v = " << d << " GHz (energies up to " << scale << ")");
        }
        double tol = 1e-6 * big * root + 1e-5 + (p.fields ? 2e-4 * big * root : 0);
        bool complete = !is(c, "sametrafo") && is(c, "invE") == is(c, "invO") && is(c, "perE") == is(c, "perO") && is(c, "refE") == is(c, "refO");
        if (complete) {
            double d = sm::distance(got, sm::spectrum(H));
            VP_CHECK(d <= tol, w.str() << ": " << got.size() << " pair energies of all blocks instead of " << K << ", difference " << d << " GHz, allowed " << tol);
        }
        if (is(c, "sametrafo") && is(c, "invE") == is(c, "invO") && is(c, "perE") == is(c, "perO") && is(c, "refE") == is(c, "refO")) {
            // the blocks contain the initial pair state completely
            for (Eigen::Index i = 0; i < N; ++i) {
                StateOne a = st[i].getFirstState(), b = st[i].getSecondState();
                StateOne x = p.init[0].state(), y = p.init[1].state();
                bool initial = a == x && b == y;
                if (!is(c, "zerotheta") && a.getN() == x.getN() && a.getL() == x.getL() && a.getJ() == x.getJ() && b.getN() == y.getN() && b.getL() == y.getL() && b.getJ() == y.getJ() && (!(x == y) || a == b)) {
                    initial = true; // rotated initial state
                }
                if (initial) {
                    VP_CHECK(std::abs(all.row(i).squaredNorm() - P.row(i).squaredNorm()) <= n, w.str() << ": weight " << all.row(i).squaredNorm() << " of the initial pair state instead of " << P.row(i).squaredNorm());
                }
            }
        }
    }
    sm::whittaker = false;
    return res;
}
} // namespace

VP_FACET("two-atom calculations", 300, 3000, "coupled pair states") {
    PairSpec p = gen_pair(src, false);
    int threads = static_cast<int>(src.pick(1, 6));
    VP_NOTE((p.complex ? "complex " : "real ") << threads << " threads: " << text(p.c));
    Run r = run(p.c, vp::fresh_dir("cache"), p.complex, threads);
    auto res = check_pair(p, r);
    vp::label(is(p.c, "samebasis") ? "common basis" : "separate bases");
    vp::nontrivial(res.coupled);
}
VP_FACET("two-atom calculations with symmetries", 300, 3000, "coupled pair states and more than one block") {
    PairSpec p = gen_pair(src, true);
    int threads = static_cast<int>(src.pick(1, 6));
    VP_NOTE((p.complex ? "complex " : "real ") << threads << " threads: " << text(p.c));
    Run r = run(p.c, vp::fresh_dir("cache"), p.complex, threads);
    auto res = check_pair(p, r);
    vp::label(std::string(is(p.c, "invE") ? "i" : "-") + (is(p.c, "perE") ? "p" : "-") + (is(p.c, "refE") ? "r" : "-") + (is(p.c, "conserveM") ? "m" : "-") + (is(p.c, "sametrafo") ? "s" : "-"));
    vp::nontrivial(res.coupled && res.blocks > 1);
}

namespace {
struct Task {
    Conf c;
    bool complex = false;
};
bool pair(const Conf &c) { return c.count("minR") != 0; }
// another configuration that resembles the given one
std::string vary(vp::Src &src, Task &t) {
    Conf &c = t.c;
    bool two = pair(c);
    auto toggle = [&](const std::string &k) {
        c[k] = is(c, k) ? "false" : "true";
        return k;
    };
    std::vector<std::string> fields = {"Ez", "Bz", "Ex", "Bx"};
    if (c.count("n2") && src.chance(1, 6)) { // the levels of one atom, with a basis of the same size
        std::string i = src.flip() ? "2" : "1";
        c["n" + i] = std::to_string(static_cast<int>(number(c, "n" + i)) + (src.flip() ? 1 : -1));
        return "n" + i + "=" + c["n" + i];
    }
    switch (src.choice(two ? 16 : 9)) {
    case 0: { // digits of a field, everywhere or at one end
        std::string f = src.of(fields);
        double x = number(c, "max" + f), rel = src.of({1e-15, 1e-12, 1e-8, 1e-5, 1e-3, 1e-1});
        double v = x == 0 ? 1e-3 : x * (1 + rel);
        if (src.flip()) {
            c["min" + f] = num(v);
        }
        c["max" + f] = num(v);
        return "max" + f + "=" + num(v);
    }
    case 1: {
        std::string f = src.of(fields);
        std::swap(c["min" + f], c["max" + f]);
        return "reversed " + f;
    }
    case 2:
        return toggle("diamagnetism");
    case 3:
        toggle("missingCalc");
        return toggle("missingWhittaker");
    case 4:
        c["steps"] = std::to_string(src.pick(1, 5));
        return "steps=" + c["steps"];
    case 5: {
        std::string k = src.of<std::string>({"deltaNSingle", "deltaLSingle", "deltaJSingle", "deltaMSingle", "deltaESingle"});
        double v = number(c, k);
        c[k] = k == "deltaESingle" ? num(v < 0 ? src.logreal(20, 1500) : v * src.of({1 + 1e-12, 1.1, 2., 0.5})) : v > 0 ? std::to_string(static_cast<int>(v) - 1) : "1";
        return k + "=" + c[k];
    }
    case 6: {
        std::string i = c.count("n2") && src.flip() ? "2" : "1";
        double j = number(c, "j" + i), m = number(c, "m" + i);
        int l = static_cast<int>(number(c, "l" + i));
        switch (src.choice(3)) {
        case 0:
            c["m" + i] = num(m + 1 <= j ? m + 1 : -j);
            break;
        case 1:
            c["n" + i] = std::to_string(static_cast<int>(number(c, "n" + i)) + (src.flip() ? 1 : -1));
            break;
        case 2:
            c["j" + i] = num(l > 0 && j > l ? j - 1 : l + 0.5);
            c["m" + i] = num(number(c, "j" + i));
            break;
        default:
            c["species" + i] = gen_species(src);
            if (c.count("species2") && is(c, "samebasis")) {
                c["species1"] = c["species2"] = c["species" + i];
            }
        }
        return "atom " + i;
    }
    case 7:
        t.complex = !t.complex;
        return t.complex ? "complex" : "real";
    case 8: { // the set of keys
        std::string k = src.of<std::string>({"deltaNPair", "deltaLPair", "deltaJPair", "deltaMPair", "deltaEPair", "exponent", "conserveM", "unknown"});
        if (two && k != "unknown") {
            k = "unknown";
        }
        if (c.count(k)) {
            c.erase(k);
        } else {
            c[k] = std::to_string(src.choice(3));
        }
        return "key " + k;
    }
    case 9: // both atoms exchanged
        for (std::string k : {"species", "n", "l", "j", "m"}) {
            if (c.count(k + "2")) {
                std::swap(c[k + "1"], c[k + "2"]);
            }
        }
        return "exchanged";
    case 10: {
        std::string k = src.of<std::string>({"minR", "maxR"});
        c[k] = num(number(c, k) * (1 + src.of({1e-15, 1e-12, 1e-9, 1e-4, 0.1})));
        return k + "=" + c[k];
    }
    case 11:
        c["exponent"] = std::to_string(src.pick(2, 5));
        return "exponent=" + c["exponent"];
    case 12: {
        std::string k = src.of<std::string>({"deltaNPair", "deltaLPair", "deltaJPair", "deltaMPair"});
        c[k] = number(c, k) < 0 ? std::to_string(src.choice(2)) : "-1";
        return k + "=" + c[k];
    }
    case 13: {
        double v = number(c, "deltaEPair");
        c["deltaEPair"] = v < 0 ? num(src.logreal(5, 1000)) : src.chance(1, 4) ? "-1" : num(v * src.of({1 + 1e-12, 1.1, 2., 0.5}));
        return "deltaEPair=" + c["deltaEPair"];
    }
    case 14:
        if (c["species1"] == c["species2"]) {
            return toggle("samebasis");
        }
        return toggle("conserveM");
    default:
        for (std::string k : {"invE", "invO", "perE", "perO"}) {
            if (is(c, "samebasis")) {
                if (src.chance(1, 3)) {
                    toggle(k);
                }
            } else {
                c[k] = "false";
            }
        }
        return toggle("conserveM");
    }
}
bool reasonable(const Task &t, int limit) {
    const Conf &c = t.c;
    for (std::string k : {"minEy", "maxEy", "minBy", "maxBy"}) {
        if (!t.complex && number(c, k) != 0) {
            return false; // refused
        }
    }
    for (std::string i : {"1", "2"}) {
        if (c.count("n" + i) && !mx::rydberg(c.at("species" + i), static_cast<int>(number(c, "n" + i)), static_cast<int>(number(c, "l" + i)), number(c, "j" + i))) {
            return false;
        }
    }
    if (is(c, "samebasis")) {
        return static_cast<int>(basis(c, {atom(c, "1"), atom(c, "2")}).size()) <= limit;
    }
    for (std::string i : {"1", "2"}) {
        if (c.count("n" + i) && static_cast<int>(basis(c, {atom(c, i)}).size()) > limit) {
            return false;
        }
    }
    // the program requires exchangeable atoms for these
    for (std::string k : {"invE", "invO", "perE", "perO"}) {
        if (is(c, k)) {
            return false;
        }
    }
    return true;
}
} // namespace

VP_FACET("sequences of calculations that share one cache directory", 250, 2500, "at least two different configurations with results") {
    Task t;
    if (src.flip()) {
        t.c = gen_single(src, t.complex);
        if (src.chance(1, 3)) {
            Atom b = gen_atom(src, t.c["species1"]);
            b.n = atom(t.c, "1").n + static_cast<int>(src.pick(-1, 1));
            put(t.c, b, "2");
            t.c["samebasis"] = src.flip() ? "true" : "false";
        }
        vp::label("one-atom");
    } else {
        PairSpec p = gen_pair(src, src.flip(), 16);
        t.c = p.c;
        t.complex = p.complex;
        for (std::string k : {"refE", "refO"}) {
            t.c[k] = "false";
        }
        vp::label("two-atom");
    }
    int limit = pair(t.c) ? 16 : 80;
    if (!reasonable(t, limit)) {
        throw vp::Discard();
    }
    std::string shared = vp::fresh_dir("shared"), log;
    std::vector<Task> history;
    std::set<std::string> different;
    std::map<std::string, Run> cold;
    size_t vectors = 0;
    for (long long n = src.pick(2, 6), i = 0; i < n; ++i) {
        std::string how = "as before";
        if (i > 0) {
            Task next = history[static_cast<size_t>(src.pick(0, i - 1))];
            if (!src.chance(1, 4)) {
                how = vary(src, next);
                while (src.chance(1, 3)) {
                    how += ", " + vary(src, next);
                }
            }
            if (!reasonable(next, limit)) {
                next = history[static_cast<size_t>(src.pick(0, i - 1))];
                how = "as before";
            }
            t = next;
        }
        history.push_back(t);
        int threads = static_cast<int>(src.pick(1, 8));
        std::string id = std::string(t.complex ? "complex " : "real ") + text(t.c);
        log = (i > 0 ? " | " + how + (t.complex ? " complex " : " real ") : id) + std::to_string(threads) + " threads; ";
        VP_NOTE(log);
        if (!cold.count(id)) {
            std::string dir = vp::fresh_dir("cold");
            cold[id] = run(t.c, dir, t.complex, 1);
            vp::remove_tree(dir);
        }
        Run warm = run(t.c, shared, t.complex, threads);
        same(warm, cold[id], "calculation " + std::to_string(i + 1) + " with the shared cache: " + id);
        different.insert(id);
        for (auto &s : warm.sections) {
            vectors += s.out.empty() ? 0 : static_cast<size_t>(s.out[0].e.size());
        }
    }
    vp::remove_tree(shared);
    vp::nontrivial(different.size() > 1 && vectors > 1);
}

// The same calculation with many threads, many times: nothing may depend on the order of the work.
VP_FACET("schedules", 120, 1500, "several steps are calculated at the same time") {
    Task t;
    bool two = src.chance(2, 3);
    if (two) {
        PairSpec p = gen_pair(src, src.flip(), 24);
        t.c = p.c;
        t.complex = p.complex;
        for (std::string k : {"refE", "refO"}) {
            t.c[k] = "false";
        }
    } else {
        t.c = gen_single(src, t.complex);
    }
    if (src.chance(2, 3)) {
        t.c["maxEz"] = num(number(t.c, "minEz") + src.real(0.1, 10));
    } else if (src.chance(1, 3)) { // fewer numbers than steps
        double x = src.real(0.1, 10);
        t.c["minEz"] = num(x);
        t.c["maxEz"] = num(x * (1 + 1e-15));
        vp::label("equal steps");
    }
    if (two && number(t.c, "deltaEPair") < 0) {
        t.c["deltaEPair"] = num(src.logreal(5, 500));
    }
    t.c["steps"] = std::to_string(src.pick(6, 16));
    if (!reasonable(t, two ? 24 : 80)) {
        throw vp::Discard();
    }
    VP_NOTE((t.complex ? "complex " : "real ") + text(t.c));
    std::string dir = vp::fresh_dir("cache");
    Run cold = run(t.c, dir, t.complex, 1);
    vp::remove_tree(dir);
    for (int i = 0; i < 6; ++i) {
        dir = vp::fresh_dir("cache");
        int threads = i < 2 ? 16 : 8;
        Run r = run(t.c, dir, t.complex, threads);
        same(r, cold, std::to_string(threads) + " threads");
        if (i % 2 == 0) {
            r = run(t.c, dir, t.complex, threads);
            same(r, cold, std::to_string(threads) + " threads, with the results");
        }
        vp::remove_tree(dir);
    }
    vp::label(two ? "two-atom" : "one-atom");
    vp::nontrivial(cold.sections.back().tot > 1);
}
