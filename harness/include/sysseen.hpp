// What a user sees of a system, and the comparison of two systems.
#ifndef SYSSEEN_HPP
#define SYSSEEN_HPP
#include "sysmodel.hpp"

namespace sm {
// what a user sees of a system
template <typename State>
struct Seen {
    bool refused = false;
    std::string why;
    std::vector<State> states;
    Mat B, H;
};
template <typename Sys, typename State>
Seen<State> look(Sys &sys) {
    Quiet quiet;
    Seen<State> s;
    try {
        s.H = dense(sys.getHamiltonian());
        s.B = dense(sys.getBasisvectors());
        s.states = sys.getStates();
    } catch (const std::exception &e) {
        s.refused = true;
        s.why = e.what();
    }
    return s;
}
// `unordered`: the states may come in another order and the basis vectors may span the same space in another way
template <typename State>
void same(const Seen<State> &got, const Seen<State> &want, const std::string &how, bool unordered = false, bool canonical = false) {
    VP_CHECK(got.refused == want.refused, how << ": the settings are " << (got.refused ? "refused: " + got.why : "accepted") << ", but directly applied to a new system they are " << (want.refused ? "refused: " + want.why : "accepted"));
    if (got.refused) {
        return;
    }
    VP_CHECK(std::set<State>(got.states.begin(), got.states.end()) == std::set<State>(want.states.begin(), want.states.end()) && got.states.size() == want.states.size(), how << ": " << got.states.size() << " states instead of " << want.states.size());
    VP_CHECK(got.B.cols() == (canonical ? got.B.rows() : want.B.cols()) && got.H.rows() == got.H.cols() && got.H.cols() == got.B.cols(), how << ": " << got.B.cols() << " basis vectors instead of " << want.B.cols());
    VP_CHECK(got.B.allFinite() && got.H.allFinite() == want.H.allFinite(), how << ": the basis or the Hamiltonian contains numbers that are not finite");
    if (!want.H.allFinite()) {
        return;
    }
    Eigen::Index N = got.B.rows();
    Mat diag = want.H.diagonal().asDiagonal();
    double top = maxabs(want.H), coupling = maxabs(want.H - diag);
    if (got.states == want.states && maxabs(got.B - want.B) < 1e-13 && !unordered) { // even the same basis vectors
        for (Eigen::Index i = 0; i < got.H.rows(); ++i) {
            for (Eigen::Index k = 0; k < got.H.cols(); ++k) {
                double lim = 1e-11 * std::abs(want.H(i, k)) + 1e-12 * coupling + (i == k ? 1e-12 * top : 1e-15 * top);
                VP_CHECK(std::abs(got.H(i, k) - want.H(i, k)) <= lim, how << ": <" << i << "|H|" << k << "> = " << got.H(i, k) << ", a new system has " << want.H(i, k));
            }
        }
        return;
    }
    Mat perm = Mat::Zero(N, N);
    std::map<State, Eigen::Index> at;
    for (Eigen::Index i = 0; i < N; ++i) {
        at[want.states[i]] = i;
    }
    for (Eigen::Index i = 0; i < N; ++i) {
        perm(at.at(got.states[i]), i) = 1;
    }
    Mat B = perm * got.B;
    double d = maxabs(B * B.adjoint() - want.B * want.B.adjoint());
    VP_CHECK(d < 1e-9, how << ": the basis vectors span another space (" << d << ")");
    d = maxabs(B * got.H * B.adjoint() - want.B * want.H * want.B.adjoint());
    VP_CHECK(d <= 1e-11 * top, how << ": the Hamiltonian differs by " << d << " from that of a new system (largest entry " << top << ", coupling " << coupling << ")");
    if (canonical) { // contains additional zeros
        return;
    }
    d = distance(spectrum(got.H), spectrum(want.H));
    VP_CHECK(d <= 1e-11 * top, how << ": the spectrum differs by " << d);
}
} // namespace sm
#endif
