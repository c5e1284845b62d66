// C06: ratio test and step along the homotopy path
#include "qps.hpp"
USING_NAMESPACE_QPOASES
static const double TOL = 1e-10;
static double val(h::Rng& R) { return R.one_in(4) ? 0 : R.in(-12, 12) / 4.0; }
struct Cand { int kind; bool bound; long idx; double num, den; bool flip; };   // kind: resulting status

static void eligible(const SubjectTo* S, long i, bool& lo, bool& up) {
    lo = up = false;
    if (S->type[i] == ST_EQUALITY) return;
    lo = S->status[i] == ST_LOWER || S->status[i] == ST_INACTIVE;
    up = S->status[i] == ST_UPPER;
}
static bool limit(const Cand& c, const SubjectTo* S, double eN, double eD, double& r) {
    bool lo, up; eligible(S, c.idx, lo, up);
    double n = up ? -c.num : c.num, d = up ? -c.den : c.den;
    if (!(lo || up) || d < eD || n < eN) return false;
    r = n / d; return true;
}
static void ratio(h::Rng& R) {
    long n = R.in(1, 8);
    QProblemB qp(n); QUIET();
    Bounds B(n);
    for (long i = 0; i < n; ++i) { B.setupBound(i, R.one_in(3) ? ST_INACTIVE : R.coin() ? ST_LOWER : ST_UPPER); B.setType(i, R.one_in(4) ? ST_EQUALITY : R.one_in(4) ? ST_UNBOUNDED : ST_BOUNDED); }
    long m = R.in(0, n);
    std::vector<int_t> idx(n); for (long i = 0; i < n; ++i) idx[i] = i;
    for (long i = n - 1; i > 0; --i) std::swap(idx[i], idx[R.in(0, i)]);
    std::vector<double> num(n), den(n);
    double eN = R.one_in(3) ? 0 : R.coin() ? -1e-9 : 1e-9, eD = R.coin() ? 1e-9 : 0.25;
    for (auto& x : num) x = R.one_in(6) ? (R.coin() ? eN : -eN) : R.one_in(8) ? eN * 2 : val(R);
    for (auto& x : den) x = R.one_in(6) ? (R.coin() ? eD : -eD) : R.one_in(6) ? (R.coin() ? eD : -eD) / 2 : val(R);
    double t0 = R.one_in(3) ? 1 : R.real(0, 2), t = t0; int_t b = 77;
    h::evalcase(h::fmt("performRatioTest idx=%s num=%s den=%s epsNum=%g epsDen=%g t=%.17g status=%s type=%s", h::arr(idx.data(), m).c_str(), h::arr(num.data(), m).c_str(), h::arr(den.data(), m).c_str(), eN, eD, t0, h::arr(B.status, n).c_str(), h::arr(B.type, n).c_str()));
    CHECK(qp.performRatioTest(m, idx.data(), &B, num.data(), den.data(), eN, eD, t, b) == SUCCESSFUL_RETURN, "ret");
    double best = t0;
    for (long k = 0; k < m; ++k) { Cand c = {0, true, (long)idx[k], num[k], den[k], false}; double r; if (limit(c, &B, eN, eD, r)) best = std::min(best, r); }
    CHECK(h::close(t, best, TOL), "step length %.17g, the smallest ratio is %.17g", t, best);
    CHECK(t <= t0, "longer");
    if (b == -1) CHECK(t == t0, "shortened without a blocking index");
    else { bool ok = false; for (long k = 0; k < m; ++k) { Cand c = {0, true, (long)idx[k], num[k], den[k], false}; double r; if (idx[k] == b && limit(c, &B, eN, eD, r) && h::close(r, t, TOL)) ok = true; } CHECK(ok, "index %ld does not attain the ratio", (long)b); CHECK(t < t0, "index without shortening"); }
}
static void plain(h::Rng& R) {
    long n = R.in(1, 8), m = R.in(0, n);
    QProblem qp(n, 1); QUIET();
    std::vector<int_t> idx(n); for (long i = 0; i < n; ++i) idx[i] = R.in(0, 50);
    std::vector<double> num(n), den(n);
    double eN = R.one_in(3) ? 0 : R.coin() ? -1e-9 : 1e-9, eD = R.coin() ? 1e-9 : 0.25;
    for (auto& x : num) x = R.one_in(6) ? (R.coin() ? eN : -eN) : R.one_in(8) ? eN * 2 : val(R);
    for (auto& x : den) x = R.one_in(6) ? (R.coin() ? eD : -eD) : R.one_in(6) ? eD / 2 : val(R);
    double t0 = R.one_in(3) ? 1 : R.real(0, 2), t = t0, best = t0; int_t b = 77;
    h::evalcase(h::fmt("performPlainRatioTest num=%s den=%s epsNum=%g epsDen=%g t=%.17g", h::arr(num.data(), m).c_str(), h::arr(den.data(), m).c_str(), eN, eD, t0));
    CHECK(qp.performPlainRatioTest(m, idx.data(), num.data(), den.data(), eN, eD, t, b) == SUCCESSFUL_RETURN, "ret");
    bool att = false;
    for (long k = 0; k < m; ++k) if (num[k] > eN && den[k] > eD) best = std::min(best, num[k] / den[k]);
    CHECK(h::close(t, best, TOL), "step length %.17g, the smallest ratio is %.17g", t, best);
    for (long k = 0; k < m; ++k) if (num[k] > eN && den[k] > eD && idx[k] == b && h::close(num[k] / den[k], t, TOL)) att = true;
    CHECK((b == 77 && t == t0) || (t < t0 && att), "index %ld", (long)b);
}
static std::vector<double> cpA; static long cpN; static int cpFail;
struct CP : public ConstraintProduct { int_t operator()(int_t i, const real_t* const x, real_t* const r) const { if (cpFail == i) return 1; double s = 0; for (long j = 0; j < cpN; ++j) s += cpA[i * cpN + j] * x[j]; *r = s; return 0; } };
static std::vector<double> rnd(h::Rng& R, long n) { std::vector<double> v(std::max(1L, n)); for (auto& x : v) x = val(R); return v; }

static void step(h::Rng& R, bool cons) {
    long nV = R.in(1, 6), nC = cons ? R.in(1, 5) : 0;
    QProblem qc(nV, std::max(1L, nC)); QProblemB qb(nV);
    QProblemB* p = cons ? (QProblemB*)&qc : &qb;
    QUIET();
    p->bounds.init(nV);
    for (long i = 0; i < nV; ++i) { p->bounds.setupBound(i, R.coin() ? ST_INACTIVE : R.coin() ? ST_LOWER : ST_UPPER); p->bounds.setType(i, R.one_in(5) ? ST_EQUALITY : R.one_in(6) ? ST_UNBOUNDED : ST_BOUNDED); }
    p->bounds.setNoLower(R.one_in(4) ? BT_TRUE : BT_FALSE); p->bounds.setNoUpper(R.one_in(4) ? BT_TRUE : BT_FALSE);
    cpA = rnd(R, nC * nV); cpN = nV; cpFail = -1;
    CP cp; bool prod = cons && R.one_in(3);
    if (cons) {
        qc.constraints.init(nC);
        for (long i = 0; i < nC; ++i) { qc.constraints.setupConstraint(i, R.coin() ? ST_INACTIVE : R.coin() ? ST_LOWER : ST_UPPER); qc.constraints.setType(i, R.one_in(5) ? ST_EQUALITY : R.one_in(4) ? ST_UNBOUNDED : ST_BOUNDED); }
        qc.constraints.setNoLower(R.one_in(4) ? BT_TRUE : BT_FALSE); qc.constraints.setNoUpper(R.one_in(4) ? BT_TRUE : BT_FALSE);
        qc.setA(cpA.data());
        if (prod) qc.setConstraintProduct(&cp);
    }
    if (!p->x) p->x = new real_t[nV];
    std::vector<double> x = rnd(R, nV), y = rnd(R, nV + nC), g = rnd(R, nV), lb(nV), ub(nV), lbA(nC), ubA(nC), Ax(nC), Al(nC), Au(nC);
    for (long i = 0; i < nV; ++i) { lb[i] = x[i] - (R.one_in(4) ? 0 : R.in(-2, 8) / 4.0); ub[i] = x[i] + (R.one_in(4) ? 0 : R.in(-2, 8) / 4.0); }
    for (long i = 0; i < nC; ++i) { double s = 0; for (long j = 0; j < nV; ++j) s += cpA[i * nV + j] * x[j]; Ax[i] = s; Al[i] = R.one_in(4) ? 0 : R.in(-2, 8) / 4.0; Au[i] = R.one_in(4) ? 0 : R.in(-2, 8) / 4.0; lbA[i] = s - Al[i]; ubA[i] = s + Au[i]; }
    for (long i = 0; i < nV; ++i) { p->x[i] = x[i]; p->g[i] = g[i]; p->lb[i] = lb[i]; p->ub[i] = ub[i]; }
    for (long i = 0; i < nV + nC; ++i) p->y[i] = y[i];
    for (long i = 0; i < nC; ++i) { qc.lbA[i] = lbA[i]; qc.ubA[i] = ubA[i]; qc.Ax[i] = Ax[i]; qc.Ax_l[i] = Al[i]; qc.Ax_u[i] = Au[i]; }
    p->options.epsNum = R.coin() ? -1e-9 : 0; p->options.epsDen = 1e-9;
    long nFR = p->bounds.getNFR(), nFX = p->bounds.getNFX(), nAC = cons ? qc.constraints.getNAC() : 0, nIAC = cons ? qc.constraints.getNIAC() : 0;
    const int_t *FR = p->bounds.freee.number, *FX = p->bounds.fixed.number, *AC = qc.constraints.active.number, *IC = qc.constraints.inactive.number;
    bool small = R.one_in(3);
    auto dir = [&](long n) { auto v = rnd(R, n); if (small) for (auto& z : v) z /= 16; return v; };
    std::vector<double> dg = dir(nV), dlb = dir(nV), dub = dir(nV), dlA = dir(nC), duA = dir(nC), dxF = dir(nFX), dxR = dir(nFR), dyA = dir(nAC), dyF = dir(nFX);
    std::vector<double> dx(nV), dAx(nC);
    for (long k = 0; k < nFR; ++k) dx[FR[k]] = dxR[k];
    for (long k = 0; k < nFX; ++k) dx[FX[k]] = dxF[k];
    for (long i = 0; i < nC; ++i) { double s = 0; for (long j = 0; j < nV; ++j) s += cpA[i * nV + j] * dx[j]; dAx[i] = prod && qc.constraints.type[i] == ST_UNBOUNDED ? 0 : s; }
    if (prod && R.one_in(8)) cpFail = R.in(0, nC - 1);
    h::evalcase(h::fmt("%s::performStep nV=%ld nC=%ld product=%d A=%s x=%s y=%s lb=%s ub=%s Ax_l=%s Ax_u=%s dlb=%s dub=%s dlbA=%s dubA=%s dxFX=%s dxFR=%s dyAC=%s dyFX=%s bstatus=%s btype=%s cstatus=%s ctype=%s noLower=%d,%d noUpper=%d,%d", cons ? "QProblem" : "QProblemB", nV, nC, (int)prod, h::vec(cpA).c_str(), h::vec(x).c_str(), h::vec(y).c_str(), h::vec(lb).c_str(), h::vec(ub).c_str(), h::vec(Al).c_str(), h::vec(Au).c_str(), h::vec(dlb).c_str(), h::vec(dub).c_str(), h::vec(dlA).c_str(), h::vec(duA).c_str(), h::vec(dxF).c_str(), h::vec(dxR).c_str(), h::vec(dyA).c_str(), h::vec(dyF).c_str(), h::arr(p->bounds.status, nV).c_str(), h::arr(p->bounds.type, nV).c_str(), h::arr(qc.constraints.status, nC).c_str(), h::arr(qc.constraints.type, nC).c_str(), (int)p->bounds.noLower, (int)qc.constraints.noLower, (int)p->bounds.noUpper, (int)qc.constraints.noUpper));
    int_t b = 55; SubjectToStatus s = ST_LOWER; BooleanType isb = BT_FALSE;
    returnValue rv = cons ? qc.performStep(dg.data(), dlA.data(), duA.data(), dlb.data(), dub.data(), dxF.data(), dxR.data(), dyA.data(), dyF.data(), b, s, isb)
                          : qb.performStep(dg.data(), dlb.data(), dub.data(), dxF.data(), dxR.data(), dyF.data(), b, s);
    if (cpFail >= 0) {
        bool hit = false;
        for (long k = 0; k < nIAC; ++k) if (IC[k] == cpFail && qc.constraints.type[cpFail] != ST_UNBOUNDED) hit = true;
        bool act = false; for (long k = 0; k < nAC; ++k) if (AC[k] == cpFail) act = true;
        if (hit) CHECK(rv != SUCCESSFUL_RETURN, "failure of the constraint product not reported");
        if (hit || act) return;
    }
    CHECK(rv == SUCCESSFUL_RETURN, "ret %d", (int)rv);
    double eN = p->options.epsNum, eD = p->options.epsDen, best = 1, tau = p->tau;
    std::vector<Cand> cs;
    for (long k = 0; k < nAC; ++k) cs.push_back({ST_INACTIVE, false, (long)AC[k], y[nV + AC[k]], -dyA[k], false});
    for (long k = 0; k < nFX; ++k) cs.push_back({ST_INACTIVE, true, (long)FX[k], y[FX[k]], -dyF[k], false});
    for (long k = 0; k < nIAC; ++k) { long i = IC[k];
        if (qc.constraints.noLower == BT_FALSE) cs.push_back({ST_LOWER, false, i, std::max(Al[i], 0.0), dlA[i] - dAx[i], false});
        if (qc.constraints.noUpper == BT_FALSE) cs.push_back({ST_UPPER, false, i, std::max(Au[i], 0.0), dAx[i] - duA[i], false}); }
    for (long k = 0; k < nFR; ++k) { long i = FR[k];
        if (p->bounds.noLower == BT_FALSE) cs.push_back({ST_LOWER, true, i, std::max(x[i] - lb[i], 0.0), dlb[i] - dxR[k], false});
        if (p->bounds.noUpper == BT_FALSE) cs.push_back({ST_UPPER, true, i, std::max(ub[i] - x[i], 0.0), dxR[k] - dub[i], false}); }
    for (auto& c : cs) { double r; if (limit(c, c.bound ? (SubjectTo*)&p->bounds : (SubjectTo*)&qc.constraints, eN, eD, r)) best = std::min(best, r); }
    CHECK(h::close(tau, best, TOL), "step length %.17g, the longest admissible one is %.17g", tau, best);
    CHECK((b == -1) == (s == ST_UNDEFINED), "blocking index %ld with status %d", (long)b, (int)s);
    if (b == -1) CHECK(tau == 1, "shortened without a blocking index");
    else {
        bool ok = false;
        for (auto& c : cs) { double r; if (c.idx == b && c.kind == s && (!cons || c.bound == (isb == BT_TRUE)) && limit(c, c.bound ? (SubjectTo*)&p->bounds : (SubjectTo*)&qc.constraints, eN, eD, r) && h::close(r, tau, TOL)) ok = true; }
        CHECK(ok, "reported blocking %s %ld with status %d does not limit the step", isb ? "bound" : "constraint", (long)b, (int)s);
    }
    double t = tau > 1e-25 ? tau : 0;
    for (long k = 0; k < nFX; ++k) CHECK(h::close(p->y[FX[k]], y[FX[k]] + t * dyF[k], TOL), "y[%ld]", (long)FX[k]);
    for (long k = 0; k < nFR; ++k) CHECK(p->y[FR[k]] == y[FR[k]], "multiplier of free variable %ld changed", (long)FR[k]);
    for (long k = 0; k < nAC; ++k) CHECK(h::close(p->y[nV + AC[k]], y[nV + AC[k]] + t * dyA[k], TOL), "y of constraint %ld", (long)AC[k]);
    for (long k = 0; k < nIAC; ++k) CHECK(p->y[nV + IC[k]] == y[nV + IC[k]], "multiplier of inactive constraint %ld changed", (long)IC[k]);
    for (long i = 0; i < nV; ++i) {
        CHECK(h::close(p->x[i], x[i] + t * dx[i], TOL), "x[%ld]=%.17g", i, p->x[i]);
        CHECK(h::close(p->g[i], g[i] + t * dg[i], TOL), "g[%ld]", i);
        CHECK(h::close(p->lb[i], lb[i] + t * dlb[i], TOL), "lb[%ld]", i);
        CHECK(h::close(p->ub[i], ub[i] + t * dub[i], TOL), "ub[%ld]", i);
    }
    for (long i = 0; i < nC; ++i) {
        CHECK(h::close(qc.lbA[i], lbA[i] + t * dlA[i], TOL), "lbA[%ld]", i);
        CHECK(h::close(qc.ubA[i], ubA[i] + t * duA[i], TOL), "ubA[%ld]", i);
        bool act = qc.constraints.status[i] != ST_INACTIVE;
        if (!act && qc.constraints.type[i] == ST_UNBOUNDED) { CHECK(qc.Ax[i] == Ax[i] && qc.Ax_l[i] == Al[i] && qc.Ax_u[i] == Au[i], "unbounded constraint %ld changed", i); continue; }
        CHECK(h::close(qc.Ax[i], Ax[i] + t * dAx[i] + (act && prod && qc.constraints.type[i] == ST_UNBOUNDED ? qc.Ax[i] - Ax[i] : 0), TOL), "Ax[%ld]=%.17g", i, qc.Ax[i]);
        if (act && tau > 1e-25) CHECK(h::close(qc.Ax_l[i], qc.Ax[i] - qc.lbA[i], TOL) && h::close(qc.Ax_u[i], qc.ubA[i] - qc.Ax[i], TOL), "slacks of active constraint %ld", i);
        if (!act) CHECK(h::close(qc.Ax_l[i], Al[i] + t * (dAx[i] - dlA[i]), TOL) && h::close(qc.Ax_u[i], Au[i] + t * (duA[i] - dAx[i]), TOL), "slacks of inactive constraint %ld", i);
    }
}
static void run(h::Rng& R) {
    for (long k = 0; k < 20000 * g_scale; ++k) { ratio(R); plain(R); step(R, false); step(R, true); }
}
