// C19: two-atom Hamiltonians against the multipole expansion and across formulations.
#include "sysmodel.hpp"

namespace {
using sm::cd;
using sm::Mat;
using sm::One;
using sm::Two;
using sm::Vec3;

// puts the geometry into the system by one of the equivalent ways
template <typename S>
void geometry(vp::Src &src, SystemTwo<S> &sys, const Two &t) {
    double R = std::sqrt(t.r[0] * t.r[0] + t.r[1] * t.r[1] + t.r[2] * t.r[2]);
    bool angle = t.r[1] == 0 && (t.r[0] != 0 || t.r[2] > 0) && src.flip();
    std::vector<int> todo = {0, 1, 2, 3};
    for (size_t i = 3; i > 0; --i) {
        std::swap(todo[i], todo[src.choice(i)]);
    }
    for (int x : todo) {
        switch (x) {
        case 0:
            sys.setOrder(t.order);
            break;
        case 1:
            if (src.chance(1, 4)) { // something else before
                sys.setDistanceVector({{src.sym(3), sm::is_complex<S> && t.green ? src.sym(3) : 0., 0.5 + src.real(0, 3)}});
                vp::label("set before");
            }
            if (!angle) {
                if (src.chance(1, 3)) { // the direction first, then the distance
                    double f = src.logreal(0.1, 10);
                    sys.setDistanceVector({{t.r[0] * f, t.r[1] * f, t.r[2] * f}});
                    sys.setDistance(R);
                } else {
                    sys.setDistanceVector(t.r);
                }
            } else {
                double th = std::atan2(t.r[0], t.r[2]);
                if (src.flip()) {
                    sys.setAngle(th);
                    sys.setDistance(R);
                } else {
                    sys.setDistance(R);
                    sys.setAngle(th);
                }
            }
            break;
        case 2:
            if (t.green) {
                sys.enableGreenTensor(true);
            }
            break;
        case 3:
            if (t.surface != std::numeric_limits<double>::max()) {
                sys.setSurfaceDistance(t.surface);
            }
            break;
        }
    }
}
template <typename S>
bool construction(vp::Src &src, const Two &t) {
    sm::Quiet quiet;
    auto a = t.a.make<S>(), b = t.b.make<S>();
    SystemTwo<S> bare(a, b, sm::cache()), sys(a, b, sm::cache());
    geometry(src, sys, t);
    // without interaction
    auto st = bare.getStates();
    Mat B = sm::dense(bare.getBasisvectors()), D = sm::dense(bare.getHamiltonian());
    auto sa = a.getStates(), sb = b.getStates();
    std::set<StateTwo> want, have(st.begin(), st.end());
    for (auto &x : sa) {
        for (auto &y : sb) {
            want.insert(StateTwo(x, y));
        }
    }
    VP_CHECK(want == have && have.size() == st.size(), t.str() << ": " << st.size() << " pair states instead of " << want.size());
    VP_CHECK(sm::maxabs(B.adjoint() * B - Mat::Identity(B.cols(), B.cols())) < 1e-10 && B.rows() == B.cols(), t.str() << ": the pair basis is not orthonormal and complete");
    Mat H0 = sm::noninteracting(st, sa, sm::dense(a.getHamiltonian()), sb, sm::dense(b.getHamiltonian()));
    double top = 1e-11 * sm::maxabs(H0) + 1e-12;
    Mat rest = B.adjoint() * H0 * B - D;
    VP_CHECK(sm::maxabs(rest) < top, t.str() << ": without interaction the Hamiltonian deviates from the sum of the one-atom Hamiltonians by " << sm::maxabs(rest));
    // with interaction
    auto st2 = sys.getStates();
    VP_CHECK(st2 == st && sm::maxabs(sm::dense(sys.getBasisvectors()) - B) == 0, t.str() << ": the interaction settings change the basis");
    Mat V = sm::dense(sys.getHamiltonian()) - D;
    Eigen::MatrixXd mag;
    Mat ref = sm::interaction(t, st, &mag);
    Eigen::MatrixXd Ba = B.cwiseAbs();
    Eigen::MatrixXd tol = 4e-7 * (Ba.transpose() * mag * Ba);
    double scale = mag.size() ? mag.maxCoeff() : 0;
    // rounding errors of terms that cancel (the traces of the quadrupoles do not contribute)
    double near = std::sqrt(t.r[0] * t.r[0] + t.r[1] * t.r[1] + t.r[2] * t.r[2]), size = std::pow(sm::largest_n(t), 2) * 5.3e-5;
    near = std::min(near, 2 * t.surface);
    double noise = t.green ? 1e-12 * coulombs_constant * elementary_charge * elementary_charge * size * size * (1 + size / near) / std::pow(near, 3) : 1e-15;
    Mat R = B.adjoint() * ref * B;
    for (Eigen::Index i = 0; i < V.rows(); ++i) {
        for (Eigen::Index j = 0; j < V.cols(); ++j) {
            double lim = tol(i, j) + 1e-11 * scale + 1e-15 * std::abs(D(i, i)) * 10 + (i == j ? top : 0) + noise;
            VP_CHECK(std::abs(V(i, j) - R(i, j)) <= lim, t.str() << ": interaction <" << i << "|V|" << j << "> = " << V(i, j) << " instead of " << R(i, j) << " (main states " << bare.getMainStates()[i].str() << ", " << bare.getMainStates()[j].str() << ")");
            VP_CHECK(std::abs(V(i, j) - std::conj(V(j, i))) <= 1e-12 * scale + noise + top * (i == j), t.str() << ": not Hermitian at " << i << ", " << j << ": " << V(i, j) << " and " << V(j, i) << ", largest element " << scale);
        }
    }
    return scale > 1e-6;
}
} // namespace

VP_FACET("construction", 500, 6000, "the interaction is larger than 1 kHz") {
    bool complex = src.flip();
    Two t = sm::gen_two(src, 8, complex);
    sm::gen_geometry(src, t, complex);
    VP_NOTE(t.str() << (complex ? " complex" : " real"));
    vp::label(t.surface != std::numeric_limits<double>::max() ? "plate" : t.green ? "tensor" : t.r[0] != 0 ? "angle" : t.r[2] < 0 ? "negative z" : "z");
    vp::nontrivial(complex ? construction<cd>(src, t) : construction<double>(src, t));
}

namespace {
// Hamiltonian in the basis of the pair states, in the given order of states
template <typename S>
Mat canonical(SystemTwo<S> &sys, const std::vector<StateTwo> &order) {
    auto st = sys.getStates();
    Mat H = sm::dense(sys.getHamiltonian()), B = sm::dense(sys.getBasisvectors());
    Mat X = B * H * B.adjoint();
    std::map<StateTwo, Eigen::Index> at;
    for (size_t i = 0; i < st.size(); ++i) {
        at[st[i]] = static_cast<Eigen::Index>(i);
    }
    VP_CHECK(at.size() == order.size(), "expected " << order.size() << " pair states, the system has " << st.size());
    Mat Y(X.rows(), X.cols());
    for (size_t i = 0; i < order.size(); ++i) {
        for (size_t j = 0; j < order.size(); ++j) {
            Y(i, j) = X(at.at(order[i]), at.at(order[j]));
        }
    }
    return Y;
}
double scale_of(const Two &t, const std::vector<StateTwo> &st, const Mat &H) { // size of errors that are tolerated
    Eigen::MatrixXd mag;
    sm::interaction(t, st, &mag);
    double size = std::pow(sm::largest_n(t), 2) * 5.3e-5, near = std::sqrt(t.r[0] * t.r[0] + t.r[1] * t.r[1] + t.r[2] * t.r[2]);
    near = std::min(near, 2 * t.surface);
    double noise = 1e-12 * coulombs_constant * elementary_charge * elementary_charge * size * size * (1 + size / near) / std::pow(near, 3);
    // radial integrals of the two cache users agree, so only rounding errors remain
    return 1e-10 * (mag.size() ? mag.norm() : 0) + 1e-12 * sm::maxabs(H) + noise + 1e-10;
}
template <typename S>
bool frames(vp::Src &src, const Two &t, bool &angle) {
    sm::Quiet quiet;
    double R = std::sqrt(t.r[0] * t.r[0] + t.r[1] * t.r[1] + t.r[2] * t.r[2]);
    double th = std::acos(std::max(-1., std::min(1., t.r[2] / R))), ph = std::atan2(t.r[1], t.r[0]);
    if (!sm::is_complex<S>) {
        th = std::atan2(t.r[0], t.r[2]);
        ph = 0;
    }
    auto sys = t.make<S>();
    auto st = sys.getStates();
    Mat H = canonical(sys, st);
    double lim = scale_of(t, st, H);
    // other formulations of the same pair
    if (t.r[1] == 0 && (t.order == 3 || (t.r[0] == 0 && t.order <= 4))) {
        Two o = t;
        o.green = !t.green;
        auto other = o.make<S>();
        Mat D = canonical(other, st) - H;
        VP_CHECK(sm::maxabs(D) <= lim, t.str() << ": the Hamiltonians with and without Green tensor differ by " << sm::maxabs(D) << " (tolerance " << lim << ")");
        vp::label("both formulations");
        angle = true;
    }
    // the same pair in its own frame
    Eigen::Matrix3d back = sm::rotation(ph, th, 0).transpose();
    Two z = t;
    for (One *o : {&z.a, &z.b}) {
        o->e = sm::apply(back, o->e);
        o->b = sm::apply(back, o->b);
    }
    z.r = {{0, 0, R}};
    z.green = src.flip();
    auto frame = z.make<S>();
    auto sh = sm::spectrum(H), sz = sm::spectrum(canonical(frame, st));
    double d = sm::distance(sh, sz);
    VP_CHECK(d <= lim, t.str() << ": the spectrum differs by " << d << " (tolerance " << lim << ") from the one of the same pair described in the frame with z along the pair: " << z.str());
    // explicit rotation of the pair
    frame.rotate(-0., -th, -ph);
    if (!sm::is_complex<S> || src.flip()) {
        Mat rot = canonical(frame, st);
        VP_CHECK(sm::maxabs(rot - H) <= lim, t.str() << ": the Hamiltonian of the pair built along z and rotated differs by " << sm::maxabs(rot - H) << " (tolerance " << lim << ")");
        vp::label("rotated explicitly");
    }
    Eigen::MatrixXd mag;
    sm::interaction(t, st, &mag);
    return mag.maxCoeff() > 1e-5;
}
template <typename S>
bool exchange(const Two &t) {
    sm::Quiet quiet;
    auto sys = t.make<S>();
    auto st = sys.getStates();
    Mat H = canonical(sys, st);
    Two x = t;
    std::swap(x.a, x.b);
    x.r = {{-t.r[0], -t.r[1], -t.r[2]}};
    auto other = x.make<S>();
    std::vector<StateTwo> sx;
    for (auto &s : st) {
        sx.emplace_back(s.getSecondState(), s.getFirstState());
    }
    double lim = scale_of(t, st, H);
    Mat D = canonical(other, sx) - H;
    VP_CHECK(sm::maxabs(D) <= lim, t.str() << ": naming the atoms the other way round changes the Hamiltonian by " << sm::maxabs(D) << " (tolerance " << lim << ")");
    Eigen::MatrixXd mag;
    sm::interaction(t, st, &mag);
    return mag.maxCoeff() > 1e-5;
}
template <typename S>
void refused(vp::Src &src, const Two &base) {
    sm::Quiet quiet;
    Two t = base;
    auto sys = t.make<S>();
    auto st = sys.getStates();
    Mat H = canonical(sys, st);
    double R = std::sqrt(t.r[0] * t.r[0] + t.r[1] * t.r[1] + t.r[2] * t.r[2]);
    std::string what;
    bool thrown = false;
    try {
        switch (src.choice(3)) {
        case 0:
            what = "orders above 4 with Green tensor";
            sys.setDistanceVector({{0, 0, R}});
            sys.setOrder(static_cast<int>(src.pick(5, 7)));
            sys.enableGreenTensor(true);
            break;
        case 1:
            what = "orders above 3 with an angle and without Green tensor";
            sys.setSurfaceDistance(std::numeric_limits<double>::max());
            sys.enableGreenTensor(false);
            sys.setOrder(static_cast<int>(src.pick(4, 7)));
            sys.setDistanceVector({{R * std::sin(1.), 0, R * std::cos(1.)}});
            break;
        case 2:
            what = "a plate and atoms outside the xz-plane";
            sys.setOrder(3);
            sys.setSurfaceDistance(2 * R);
            sys.setDistanceVector({{R * std::sin(1.), R * 0.1 * (src.flip() ? 1 : -1), R * std::cos(1.)}});
            break;
        default:
            what = "atoms behind the plate";
            sys.setOrder(3);
            sys.setDistanceVector({{R * 0.1, 0, R}});
            sys.setSurfaceDistance(R * src.real(0.05, 0.49));
            break;
        }
        sys.buildHamiltonian();
    } catch (const std::exception &) {
        thrown = true;
    }
    vp::label(what);
    VP_CHECK(thrown, t.str() << ": " << what << " is not refused");
    // the system remains usable
    sys.setDistanceVector({{R * std::sin(1.), 0, R * std::cos(1.)}});
    sys.setSurfaceDistance(std::numeric_limits<double>::max());
    sys.setOrder(t.order);
    sys.enableGreenTensor(t.green);
    sys.setDistanceVector(t.r);
    sys.setSurfaceDistance(t.surface);
    Mat D = canonical(sys, st) - H;
    double lim = scale_of(t, st, H);
    VP_CHECK(sm::maxabs(D) <= lim, t.str() << ": after refusing " << what << " the original settings give a Hamiltonian that differs by " << sm::maxabs(D));
}
Two gen_frame(vp::Src &src, bool complex) {
    Two t = sm::gen_two(src, 9, complex);
    for (One *o : {&t.a, &t.b}) { // complete sets of magnetic quantum numbers
        o->j.clear();
        o->m.clear();
        while (o->states().size() > 12) {
            if (o->l.size() > 1) {
                o->l.erase(std::prev(o->l.end()));
            } else if (o->n.size() > 1) {
                o->n.erase(std::prev(o->n.end()));
            } else {
                throw vp::Discard();
            }
        }
        sm::require_rydberg(*o);
    }
    return t;
}
} // namespace

VP_FACET("frames", 250, 4000, "the interaction is larger than 10 kHz and the pair does not point along z") {
    bool complex = src.flip();
    Two t = gen_frame(src, complex);
    double R = sm::gen_distance(src, sm::largest_n(t)), th = src.chance(1, 4) ? std::acos(-1) / 2 * static_cast<double>(src.pick(-2, 2)) : src.sym(3.1), ph = complex && src.flip() ? src.sym(3.1) : 0;
    t.r = {{R * std::sin(th) * std::cos(ph), R * std::sin(th) * std::sin(ph), R * std::cos(th)}};
    t.order = static_cast<unsigned>(src.pick(3, 4));
    t.green = t.r[1] != 0 || t.order > 3 || src.flip();
    bool angle = false;
    VP_NOTE(t.str() << (complex ? " complex" : " real"));
    bool strong = complex ? frames<cd>(src, t, angle) : frames<double>(src, t, angle);
    vp::nontrivial(strong && (t.r[0] != 0 || t.r[1] != 0));
}

VP_FACET("exchange", 200, 3000, "the interaction is larger than 10 kHz") {
    bool complex = src.flip();
    Two t = sm::gen_two(src, 8, complex);
    sm::gen_geometry(src, t, complex);
    VP_NOTE(t.str() << (complex ? " complex" : " real"));
    vp::label(t.surface != std::numeric_limits<double>::max() ? "plate" : t.green ? "tensor" : t.r[0] != 0 ? "angle" : "z");
    vp::nontrivial(complex ? exchange<cd>(t) : exchange<double>(t));
}

VP_FACET("refused", 100, 1500, "the setting was refused and the system was used afterwards") {
    bool complex = src.flip();
    Two t = sm::gen_two(src, 5, complex);
    sm::gen_geometry(src, t, complex);
    VP_NOTE(t.str() << (complex ? " complex" : " real"));
    complex ? refused<cd>(src, t) : refused<double>(src, t);
    vp::nontrivial(true);
}
