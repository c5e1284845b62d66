// C15: step directions solve the linearised optimality conditions; factors belong to the working set
#include "qps.hpp"
USING_NAMESPACE_QPOASES
typedef std::vector<double> V;
static std::string bits(const V& v) { return h::vec(v); }
struct S {
    QProblem* q; QProblemB* b; h::QP d; V H; double reg;
    int nV() { return d.nV; } int nC() { return d.nC; }
    double A(int j, int i) { return d.A[j * d.nV + i]; }
    double Hm(int i, int j) { return H[i * d.nV + j]; }
};
// the factors of the current working set
static void factors(S& s) {
    int n = s.nV(); QProblemB* b = s.b;
    std::vector<long> FR, FX, AC; int_t *fr, *fx, *ac = 0;
    b->bounds.getFree()->getNumberArray(&fr); b->bounds.getFixed()->getNumberArray(&fx); if (s.q) s.q->constraints.getActive()->getNumberArray(&ac);
    int nFR = b->getNFR(), nAC = s.q ? s.q->getNAC() : 0, nZ = nFR - nAC;
    double sc = 1; for (double v : s.H) sc = std::max(sc, std::fabs(v)); for (double v : s.d.A) sc = std::max(sc, std::fabs(v));
    if (s.q) {
        real_t* Q = s.q->Q; real_t* T = s.q->T; int sT = s.q->sizeT;
        for (int a = 0; a < nFR; ++a) for (int c = a; c < nFR; ++c) { double t = 0; for (int k = 0; k < nFR; ++k) t += Q[a * n + fr[k]] * Q[c * n + fr[k]]; CHECK(std::fabs(t - (a == c)) < 1e-7, "basis is not orthonormal: columns %d, %d give %g", a, c, t); }
        for (int j = 0; j < nAC; ++j) for (int c = 0; c < nFR; ++c) {
            double t = 0; for (int k = 0; k < nFR; ++k) t += s.A(ac[j], fr[k]) * Q[c * n + fr[k]];
            double want = c < nZ ? 0 : (c - nZ >= nAC - 1 - j ? T[j * sT + (sT - nAC) + (c - nZ)] : 0);
            CHECK(std::fabs(t - want) < 1e-6 * sc, "active constraint %d times basis column %d is %g, factor says %g", (int)ac[j], c, t, want); }
    }
    if (nZ > 0) for (int a = 0; a < nZ; ++a) for (int c = a; c < nZ; ++c) {
        double rr = 0; for (int k = 0; k <= a; ++k) rr += b->R[c * n + k] * b->R[a * n + k];
        double zz = 0;
        if (s.q) { for (int k = 0; k < nFR; ++k) for (int l = 0; l < nFR; ++l) zz += s.q->Q[a * n + fr[k]] * s.Hm(fr[k], fr[l]) * s.q->Q[c * n + fr[l]]; }
        else zz = s.Hm(fr[a], fr[c]);
        if (b->hessianType == HST_ZERO || (s.q && b->hessianType == HST_IDENTITY)) continue;
        CHECK(std::fabs(rr - zz) < 1e-6 * sc * sc, "reduced Hessian entry (%d,%d) is %g, factor gives %g", a, c, zz, rr);
    }
}
static void direction(S& s, h::Rng& R) {
    int n = s.nV(), m = s.nC(); QProblemB* b = s.b; int_t *fr, *fx, *ac = 0;
    b->bounds.getFree()->getNumberArray(&fr); b->bounds.getFixed()->getNumberArray(&fx); if (s.q) s.q->constraints.getActive()->getNumberArray(&ac);
    int nFR = b->getNFR(), nFX = b->getNFX(), nAC = s.q ? s.q->getNAC() : 0;
    auto rnd = [&](int k) { V v(k); for (auto& z : v) z = h::grid(R, 6); return v; };
    V dg = rnd(n), dlb = rnd(n), dub = rnd(n), dla = rnd(m), dua = rnd(m);
    bool bz = R.one_in(3), cz = R.one_in(3);
    if (bz) for (int k = 0; k < nFX; ++k) dlb[fx[k]] = dub[fx[k]] = 0;
    if (cz) for (int k = 0; k < nAC; ++k) dla[ac[k]] = dua[ac[k]] = 0;
    V xF(nFX), xR(nFR), yA(nAC), yF(nFX); returnValue rv;
    h::ctx += h::fmt(" | direction bz %d cz %d dg=%s dlb=%s dub=%s dlbA=%s dubA=%s free %s fixed %s active %s", bz, cz, bits(dg).c_str(), bits(dlb).c_str(), bits(dub).c_str(), bits(dla).c_str(), bits(dua).c_str(), h::arr(fr, nFR).c_str(), h::arr(fx, nFX).c_str(), h::arr(ac, nAC).c_str());
    if (s.q) rv = s.q->determineStepDirection(dg.data(), dla.data(), dua.data(), dlb.data(), dub.data(), cz ? BT_TRUE : BT_FALSE, bz ? BT_TRUE : BT_FALSE, xF.data(), xR.data(), yA.data(), yF.data());
    else rv = b->determineStepDirection(dg.data(), dlb.data(), dub.data(), bz ? BT_TRUE : BT_FALSE, xF.data(), xR.data(), yF.data());
    CHECK(rv == SUCCESSFUL_RETURN, "code %d", (int)rv);
    V dx(n), dy(n); double big = 1;
    for (int k = 0; k < nFX; ++k) { dx[fx[k]] = xF[k]; dy[fx[k]] = yF[k]; double w = b->bounds.getStatus(fx[k]) == ST_LOWER ? dlb[fx[k]] : dub[fx[k]]; CHECK(xF[k] == w, "fixed variable %d moves by %g, its limit by %g", (int)fx[k], xF[k], w); }
    for (int k = 0; k < nFR; ++k) dx[fr[k]] = xR[k];
    for (double v : dx) big = std::max(big, std::fabs(v)); for (double v : yA) big = std::max(big, std::fabs(v));
    for (int i = 0; i < n; ++i) { double t = dg[i] - dy[i]; for (int j = 0; j < n; ++j) t += s.Hm(i, j) * dx[j]; for (int j = 0; j < nAC; ++j) t -= s.A(ac[j], i) * yA[j];
        CHECK(std::fabs(t) < 1e-7 * big * 30, "stationarity of variable %d changes by %g", i, t); }
    for (int j = 0; j < nAC; ++j) { double t = 0; for (int i = 0; i < n; ++i) t += s.A(ac[j], i) * dx[i]; double w = s.q->constraints.getStatus(ac[j]) == ST_LOWER ? dla[ac[j]] : dua[ac[j]];
        CHECK(std::fabs(t - w) < 1e-7 * big * 30, "active constraint %d moves by %g, its limit by %g", (int)ac[j], t, w); }
}
static void one(h::Rng& R) {
    int cls = R.in(0, 1), nV = R.in(1, 7), nC = cls ? R.in(0, 6) : 0, kind = R.one_in(3) ? R.in(1, 2) : 0;
    S s; s.q = 0; s.d = h::randqp(R, nV, nC, true); s.reg = 0;
    if (kind) for (int i = 0; i < nV; ++i) { if (s.d.lb[i] < -1e19) s.d.lb[i] = std::min(-3.0, s.d.ub[i]); if (s.d.ub[i] > 1e19) s.d.ub[i] = std::max(3.0, s.d.lb[i]); }
    Options o; if (R.coin()) o.setToReliable(); else if (R.coin()) o.setToMPC(); else o.setToDefault();
    if (kind == 2) o.enableRegularisation = R.coin() ? BT_TRUE : BT_FALSE;
    o.enableFarBounds = R.coin() ? BT_TRUE : BT_FALSE; o.enableDriftCorrection = R.in(0, 2); o.numRefinementSteps = R.in(0, 2); o.printLevel = PL_NONE;
    HessianType ht = kind == 1 ? HST_IDENTITY : kind == 2 ? HST_ZERO : HST_UNKNOWN;
    if (cls) s.b = s.q = R.coin() ? new QProblem(nV, nC, ht) : new SQProblem(nV, nC, ht); else s.b = new QProblemB(nV, ht);
    QUIET(); s.b->setOptions(o);
    for (int round = 0; round < 3; ++round) {
        if (round) { h::QP t = h::randqp(R, nV, nC, true); s.d.g = t.g; for (int i = 0; i < nV; ++i) { double w = s.d.ub[i] - s.d.lb[i]; (void)w; } }
        std::string base = h::fmt("%s hessian %s round %d refine %d %s ", cls ? "QProblem" : "QProblemB", kind == 0 ? "general" : kind == 1 ? "identity" : "zero", round, (int)o.numRefinementSteps, o.enableRegularisation ? "regularised" : "") + h::desc(s.d);
        h::evalcase(base);
        int_t nw = 300; returnValue rv; const double *H = kind ? 0 : s.d.H.data();
        if (cls) rv = round ? s.q->hotstart(s.d.g.data(), s.d.lb.data(), s.d.ub.data(), s.d.lbA.data(), s.d.ubA.data(), nw) : s.q->init(H, s.d.g.data(), s.d.A.data(), s.d.lb.data(), s.d.ub.data(), s.d.lbA.data(), s.d.ubA.data(), nw);
        else rv = round ? s.b->hotstart(s.d.g.data(), s.d.lb.data(), s.d.ub.data(), nw) : s.b->init(H, s.d.g.data(), s.d.lb.data(), s.d.ub.data(), nw);
        if (rv != SUCCESSFUL_RETURN) break;
        s.H.assign(nV * nV, 0); for (int i = 0; i < nV; ++i) for (int j = 0; j < nV; ++j) s.H[i * nV + j] = kind == 0 ? s.d.H[i * nV + j] : i != j ? 0 : kind == 1 ? 1 : s.b->usingRegularisation() ? s.b->regVal : 0;
        double reg0 = s.b->regVal; HessianType ht0 = s.b->hessianType;
        // a regularisation that is not tiny (the factors do not depend on it here), so that its effect is visible
        if (kind == 2 && s.b->usingRegularisation() && s.b->regVal < 1e-3) { if (!cls) for (int i = 0; i < s.b->getNFR(); ++i) s.b->R[i * nV + i] = std::sqrt(0.5); s.b->regVal = 0.5; for (int i = 0; i < nV; ++i) s.H[i * nV + i] = 0.5; base += "regularisation 0.5 "; }
        else factors(s);
        // a definite Hessian may as well be of semidefinite type
        if (kind == 0 && ht0 == HST_POSDEF && R.coin()) { s.b->hessianType = HST_SEMIDEF; base += "type semidefinite "; }
        for (int k = 0; k < 3; ++k) { h::ctx = base; direction(s, R); }
        if (!cls && s.b->regVal != reg0) for (int i = 0; i < s.b->getNFR(); ++i) s.b->R[i * nV + i] = std::sqrt(reg0);
        s.b->regVal = reg0; s.b->hessianType = ht0;
    }
    delete s.b;
}
static void run(h::Rng& R) { for (long k = 0; k < 3000 * g_scale; ++k) one(R); }
