// random QPs
#pragma once
#include "h.hpp"
namespace h {
struct QP { int nV, nC; std::vector<double> H, g, A, lb, ub, lbA, ubA; };
inline double grid(Rng& R, int m) { return R.in(-m, m) / 2.0; }
// feasible convex QP built around a point x0; definite==true gives H > 0
inline QP randqp(Rng& R, int nV, int nC, bool definite = true) {
    QP q; q.nV = nV; q.nC = nC;
    q.H.assign(nV * nV, 0); q.g.resize(nV); q.A.assign(nC * nV, 0); q.lb.resize(nV); q.ub.resize(nV); q.lbA.resize(nC); q.ubA.resize(nC);
    int m = definite ? nV : R.in(0, nV);
    std::vector<double> L(m * nV);
    for (auto& x : L) x = R.one_in(3) ? 0 : grid(R, 4);
    for (int i = 0; i < nV; ++i) for (int j = 0; j < nV; ++j) { double s = 0; for (int k = 0; k < m; ++k) s += L[k * nV + i] * L[k * nV + j]; q.H[i * nV + j] = s; }
    if (definite) for (int i = 0; i < nV; ++i) q.H[i * nV + i] += 1.0;
    for (auto& x : q.g) x = grid(R, 10);
    for (auto& x : q.A) x = R.one_in(3) ? 0 : grid(R, 4);
    std::vector<double> x0(nV);
    for (auto& x : x0) x = grid(R, 4);
    auto box = [&](double v, double& l, double& u, bool mustbound) {
        switch (R.in(mustbound ? 2 : 0, 6)) {
            case 0: l = -qpOASES::INFTY; u = qpOASES::INFTY; break;
            case 1: if (R.coin()) { l = v - R.in(0, 4) / 2.0; u = qpOASES::INFTY; } else { l = -qpOASES::INFTY; u = v + R.in(0, 4) / 2.0; } break;
            case 2: l = u = v; break;
            default: l = v - R.in(0, 6) / 2.0; u = v + R.in(0, 6) / 2.0;
        }
    };
    for (int i = 0; i < nV; ++i) box(x0[i], q.lb[i], q.ub[i], !definite);
    for (int i = 0; i < nC; ++i) { double s = 0; for (int j = 0; j < nV; ++j) s += q.A[i * nV + j] * x0[j]; box(s, q.lbA[i], q.ubA[i], false); }
    return q;
}
inline std::string desc(const QP& q) { return fmt("nV=%d nC=%d H=%s g=%s A=%s lb=%s ub=%s lbA=%s ubA=%s", q.nV, q.nC, vec(q.H).c_str(), vec(q.g).c_str(), vec(q.A).c_str(), vec(q.lb).c_str(), vec(q.ub).c_str(), vec(q.lbA).c_str(), vec(q.ubA).c_str()); }
}
