// C16: one-atom Hamiltonians in external fields against a construction from single matrix elements.
#include "sysmodel.hpp"

namespace {
using sm::cd;
using sm::Mat;
using sm::One;
using sm::Vec3;

template <typename S>
void basis(SystemOne<S> &sys, const One &o, const std::vector<StateOne> &want) {
    auto got = sys.getStates();
    std::set<StateOne> a(want.begin(), want.end()), b(got.begin(), got.end());
    VP_CHECK(a == b && b.size() == got.size(), o.str() << ": " << got.size() << " states instead of " << want.size());
    Mat v = sm::dense(sys.getBasisvectors());
    VP_CHECK(v.rows() == v.cols() && v.rows() == static_cast<Eigen::Index>(got.size()) && sm::maxabs(v - Mat::Identity(v.rows(), v.cols())) == 0, "the basis vectors are not the states");
    VP_CHECK(sys.getNumStates() == got.size() && sys.getNumBasisvectors() == got.size(), "wrong number of states or basis vectors");
}
// compares the Hamiltonian of a system with the reference for the specification
template <typename S>
void compare(SystemOne<S> &sys, const One &o, const std::string &how) {
    auto st = sys.getStates();
    Eigen::MatrixXd mag;
    Mat want = sm::reference(o, st, &mag), got = sm::dense(sys.getHamiltonian());
    VP_CHECK(got.rows() == want.rows() && got.cols() == want.cols(), o.str() << how << ": the Hamiltonian has " << got.rows() << "x" << got.cols() << " entries for " << st.size() << " states");
    double top = mag.size() ? mag.maxCoeff() : 0;
    for (Eigen::Index i = 0; i < got.rows(); ++i) {
        for (Eigen::Index k = 0; k < got.cols(); ++k) {
            double tol = 4e-7 * mag(i, k) + 1e-10 * top + 1e-12 * std::abs(want(i, k)) + 1e-13;
            VP_CHECK(std::abs(got(i, k) - want(i, k)) <= tol, o.str() << how << ": <" << st[i].str() << "|H|" << st[k].str() << "> = " << got(i, k) << " instead of " << want(i, k));
            VP_CHECK(std::abs(got(i, k) - std::conj(got(k, i))) <= 1e-12 * (1 + std::abs(got(i, k)) + top * 1e-3), o.str() << how << ": not Hermitian at " << st[i].str() << ", " << st[k].str());
        }
    }
}
bool mixes(const Mat &h) {
    Mat d = h;
    d.diagonal().setZero();
    return sm::maxabs(d) > 0;
}
// orthogonal axes z', y' described by a rotation; they need not be normalised
void axes(vp::Src &src, const Eigen::Matrix3d &r, Vec3 &z, Vec3 &y) {
    double fz = src.flip() ? 1 : src.logreal(0.1, 10), fy = src.flip() ? 1 : src.logreal(0.1, 10);
    z = {{r(0, 2) * fz, r(1, 2) * fz, r(2, 2) * fz}};
    y = {{r(0, 1) * fy, r(1, 1) * fy, r(2, 1) * fy}};
}
} // namespace

VP_FACET("construction", 500, 6000, "the Hamiltonian has off-diagonal entries") {
    bool complex = src.flip();
    One o = sm::gen_one(src, 50, complex);
    VP_NOTE(o.str() << (complex ? " complex" : " real"));
    if (complex) {
        auto sys = o.make<cd>();
        basis(sys, o, o.states());
        compare(sys, o, "");
        vp::nontrivial(mixes(sm::dense(sys.getHamiltonian())));
    } else {
        auto sys = o.make<double>();
        basis(sys, o, o.states());
        compare(sys, o, "");
        vp::nontrivial(mixes(sm::dense(sys.getHamiltonian())));
    }
}

VP_FACET("arithmetic", 200, 2500, "the Hamiltonian has off-diagonal entries") {
    One o = sm::gen_one(src, 60, false);
    VP_NOTE(o.str());
    auto r = o.make<double>();
    auto c = o.make<cd>();
    VP_CHECK(r.getStates() == c.getStates(), "real and complex systems have different states");
    Mat a = sm::dense(r.getHamiltonian()), b = sm::dense(c.getHamiltonian());
    VP_CHECK(a.rows() == b.rows() && sm::maxabs(a - b) <= 1e-12 * sm::maxabs(a), o.str() << ": real and complex Hamiltonians differ by " << sm::maxabs(a - b));
    // fields the real version cannot represent are refused
    Vec3 y{{o.e[0], src.real(1e-3, 5), o.e[2]}};
    auto r2 = o.make<double>();
    bool magnetic = src.flip();
    VP_CHECK(vp::throws([&] { magnetic ? r2.setBfield(y) : r2.setEfield(y); }), "a field along y was accepted by a real system");
    Mat after = sm::dense(r2.getHamiltonian());
    VP_CHECK(after.rows() == a.rows() && sm::maxabs(after - a) <= 1e-12 * sm::maxabs(a), o.str() << ": a refused field changed the Hamiltonian");
    vp::nontrivial(mixes(a));
}

VP_FACET("orientation", 150, 2000, "a field is present and its direction is changed") {
    One o = sm::gen_one(src, 40, true, false);
    o.charge = 0;
    One p = o;
    Eigen::Matrix3d rot = sm::gen_rotation(src);
    p.e = sm::apply(rot, o.e);
    p.b = sm::apply(rot, o.b);
    VP_NOTE(o.str() << " rotated to E" << vp::show(p.e) << " B" << vp::show(p.b));
    auto a = o.make<cd>(), b = p.make<cd>();
    Mat h = sm::dense(a.getHamiltonian()), g = sm::dense(b.getHamiltonian());
    auto s = sm::spectrum(h), t = sm::spectrum(g);
    Mat d = h;
    d.diagonal().setZero();
    double tol = 1e-6 * (sm::maxabs(d) + sm::maxabs(g - h)) + 1e-10 * sm::maxabs(h);
    VP_CHECK(sm::distance(s, t) <= tol, o.str() << ": the spectrum changes by " << sm::distance(s, t) << " when the fields are rotated to E" << vp::show(p.e) << " B" << vp::show(p.b));
    vp::nontrivial(sm::maxabs(g - h) > 1e-6 && sm::maxabs(d) > 0);
}

VP_FACET("frame", 150, 2000, "a field is present and the frame is rotated") {
    // fields given together with the axes (or Euler angles) of the system's frame
    bool complex = src.flip();
    One o = sm::gen_one(src, 30, complex);
    o.charge = 0;
    double al = 0, be = src.sym(3.1), ga = 0;
    if (complex) {
        al = src.choice(3) == 0 ? 0 : src.sym(3.1);
        ga = src.choice(3) == 0 ? 0 : src.sym(3.1);
    }
    Eigen::Matrix3d rot = sm::rotation(al, be, ga);
    bool euler = src.flip();
    Vec3 z, y;
    axes(src, rot, z, y);
    if (!complex) {
        y = {{0, y[1], 0}};
    }
    One p = o;
    p.e = sm::apply(rot.transpose(), o.e);
    p.b = sm::apply(rot.transpose(), o.b);
    if (!complex) {
        p.e[1] = p.b[1] = 0;
    }
    VP_NOTE(o.str() << (complex ? " complex" : " real") << " frame " << al << " " << be << " " << ga << (euler ? " as Euler angles" : " as axes"));
    auto run = [&](auto tag) {
        SystemOne<decltype(tag)> sys(o.species, sm::cache());
        o.restrict(sys);
        o.settings(sys);
        if (euler) {
            sys.setEfield(o.e, al, be, ga);
            sys.setBfield(o.b, al, be, ga);
        } else {
            sys.setEfield(o.e, z, y);
            sys.setBfield(o.b, z, y);
        }
        compare(sys, p, " (fields given in another frame)");
        // axes that are not orthogonal are refused
        if (src.chance(1, 4) && (o.e[0] != 0 || o.e[2] != 0)) {
            Vec3 bad{{y[0] + 0.01 * z[0], y[1] + 0.01 * z[1], y[2] + 0.01 * z[2]}};
            VP_CHECK(vp::throws([&] { sys.setEfield(o.e, z, bad); }), "axes that are not orthogonal were accepted");
        }
    };
    if (complex) {
        run(cd());
    } else {
        run(double());
    }
    vp::nontrivial((o.e != Vec3{{0, 0, 0}} || o.b != Vec3{{0, 0, 0}}) && std::abs(be) > 1e-3);
}

VP_FACET("changes", 400, 5000, "settings were changed after the Hamiltonian had been built") {
    // the settings in any order, with other values and builds in between
    bool complex = src.flip();
    One o = sm::gen_one(src, 16, complex), cur = o;
    VP_NOTE(o.str() << (complex ? " complex" : " real"));
    bool built = false;
    auto change = [&](double hi) { // along one axis half of the time
        Vec3 f = sm::field3(src, hi, complex);
        if (src.flip()) {
            int keep = static_cast<int>(src.choice(2));
            for (int x = 0; x < 3; ++x) {
                f[x] = x == keep ? f[x] : 0;
            }
        }
        return f;
    };
    auto run = [&](auto tag) {
        SystemOne<decltype(tag)> sys(o.species, sm::cache());
        o.restrict(sys);
        cur.e = cur.b = {{0, 0, 0}};
        cur.diamagnetism = true;
        cur.charge = 0;
        cur.order = 0;
        cur.distance = std::numeric_limits<double>::max();
        long long steps = src.pick(2, 20);
        std::ostringstream log;
        for (long long i = 0; i < steps; ++i) {
            bool fin = src.flip(); // final value or an intermediate one
            switch (src.choice(8)) {
            case 0:
                cur.e = fin ? o.e : change(50);
                sys.setEfield(cur.e);
                log << " E" << vp::show(cur.e);
                break;
            case 1:
                cur.b = fin ? o.b : change(500);
                sys.setBfield(cur.b);
                log << " B" << vp::show(cur.b);
                break;
            case 2:
                cur.diamagnetism = src.flip();
                sys.enableDiamagnetism(cur.diamagnetism);
                log << " dia " << cur.diamagnetism;
                break;
            case 3:
                cur.charge = static_cast<int>(src.pick(-2, 2));
                sys.setIonCharge(cur.charge);
                log << " charge " << cur.charge;
                break;
            case 4:
                cur.order = static_cast<unsigned>(src.pick(0, 3));
                sys.setRydIonOrder(cur.order);
                log << " order " << cur.order;
                break;
            case 5:
                cur.distance = src.logreal(0.5, 20);
                sys.setRydIonDistance(cur.distance);
                log << " distance " << cur.distance;
                break;
            case 6:
            case 8:
                compare(sys, cur, log.str());
                built = built || i + 1 < steps;
                log << " build";
                break;
            case 7:
                sys.diagonalize();
                built = built || i + 1 < steps;
                log << " diagonalize";
                cur.e = change(50);
                sys.setEfield(cur.e);
                log << " E" << vp::show(cur.e);
                break;
            }
        }
        VP_NOTE(" |" << log.str());
        compare(sys, cur, log.str());
    };
    if (complex) {
        run(cd());
    } else {
        run(double());
    }
    vp::nontrivial(built);
}
