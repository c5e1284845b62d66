// C12: drift correction, ramping, far bounds
#include "state.hpp"
static const double TOL = 1e-12;
static void drift(h::Rng& R, bool cons) {
    Obj o(R, cons);
    long nV = o.nV, nC = o.nC;
    if (cons && nC == 0) return;
    h::evalcase("performDriftCorrection " + o.desc());
    CHECK((cons ? o.q->performDriftCorrection() : o.p->performDriftCorrection()) == SUCCESSFUL_RETURN, "ret");
    auto expect = [&](int t, int st, double p, double y0, double& l, double& u, double& y) {
        y = y0;
        if (t == ST_EQUALITY) { l = u = p; return true; }
        if (t != ST_BOUNDED) return false;
        if (st == ST_LOWER) { l = p; u = std::max(u, p); y = std::max(y0, 0.0); }
        else if (st == ST_UPPER) { u = p; l = std::min(l, p); y = std::min(y0, 0.0); }
        else { l = std::min(l, p); u = std::max(u, p); y = 0; }
        return true;
    };
    for (long i = 0; i < nV; ++i) {
        double l = o.lb[i], u = o.ub[i], y; expect(o.bt[i], o.bs[i], o.x[i], o.y[i], l, u, y);
        CHECK(o.p->lb[i] == l && o.p->ub[i] == u && o.p->y[i] == y, "variable %ld: bounds [%g,%g] multiplier %g, expected [%g,%g] %g", i, o.p->lb[i], o.p->ub[i], o.p->y[i], l, u, y);
        CHECK(o.p->x[i] == o.x[i], "x[%ld] moved", i);
    }
    for (long i = 0; i < nC; ++i) {
        double l = o.lbA[i], u = o.ubA[i], y; bool ch = expect(o.ct[i], o.cs[i], o.Ax[i], o.y[nV + i], l, u, y);
        CHECK(o.q->lbA[i] == l && o.q->ubA[i] == u && o.p->y[nV + i] == y, "constraint %ld: limits [%g,%g] multiplier %g, expected [%g,%g] %g", i, o.q->lbA[i], o.q->ubA[i], o.p->y[nV + i], l, u, y);
        if (ch) CHECK(o.q->Ax_l[i] == o.Ax[i] - l && o.q->Ax_u[i] == u - o.Ax[i], "slacks of constraint %ld: %g %g", i, o.q->Ax_l[i], o.q->Ax_u[i]);
    }
    o.stationary("performDriftCorrection");
}
static double ramp(long j, long n, double a, double b) { double t = n > 1 ? (double)(j % n) / (double)(n - 1) : 0; return (1 - t) * a + t * b; }
static void ramping(h::Rng& R, bool cons) {
    Obj o(R, cons);
    long nV = o.nV, nC = o.nC;
    if (cons && nC == 0) return;
    double r0 = o.p->ramp0 = R.coin() ? 0.5 : std::fabs(val(R)), r1 = o.p->ramp1 = R.coin() ? 1 : std::fabs(val(R));
    long off = o.p->rampOffset = R.in(0, 40);
    h::evalcase(h::fmt("performRamping ramp0=%g ramp1=%g offset=%ld ", r0, r1, off) + o.desc());
    CHECK((cons ? o.q->performRamping() : o.p->performRamping()) == SUCCESSFUL_RETURN, "ret");
    CHECK(o.p->rampOffset == off + 1, "offset %ld", (long)o.p->rampOffset);
    auto expect = [&](int t, int st, double p, double sc, double P, double D, double& l, double& u, double& y) {
        if (t == ST_EQUALITY) { l = u = p; return; }
        if (t == ST_UNBOUNDED || t == ST_DISABLED || (cons && t != ST_BOUNDED)) return;
        l = st == ST_LOWER ? p : p - sc * P; u = st == ST_UPPER ? p : p + sc * P; y = st == ST_LOWER ? D : st == ST_UPPER ? -D : 0;
    };
    long n = cons ? 2 * (nV + nC) : nV;
    for (long i = 0; i < nV; ++i) {
        double l = o.lb[i], u = o.ub[i], y = o.y[i];
        expect(o.bt[i], o.bs[i], o.x[i], cons ? std::max(1.0, std::fabs(o.x[i])) : 1, ramp(i + off, n, r0, r1), cons ? ramp(nV + 2 * nC + i + off, n, r0, r1) : ramp(i + off, n, r0, r1), l, u, y);
        CHECK(h::close(o.p->lb[i], l, TOL) && h::close(o.p->ub[i], u, TOL) && h::close(o.p->y[i], y, TOL), "variable %ld: bounds [%.17g,%.17g] multiplier %.17g, expected [%.17g,%.17g] %.17g", i, o.p->lb[i], o.p->ub[i], o.p->y[i], l, u, y);
        CHECK(o.p->x[i] == o.x[i], "x[%ld] moved", i);
    }
    for (long i = 0; i < nC; ++i) {
        double l = o.lbA[i], u = o.ubA[i], y = o.y[nV + i];
        expect(o.ct[i], o.cs[i], o.Ax[i], std::max(1.0, std::fabs(o.Ax[i])), ramp(nV + i + off, n, r0, r1), ramp(nV + nC + i + off, n, r0, r1), l, u, y);
        CHECK(h::close(o.q->lbA[i], l, TOL) && h::close(o.q->ubA[i], u, TOL) && h::close(o.p->y[nV + i], y, TOL), "constraint %ld: limits [%.17g,%.17g] multiplier %.17g, expected [%.17g,%.17g] %.17g", i, o.q->lbA[i], o.q->ubA[i], o.p->y[nV + i], l, u, y);
        if (o.ct[i] == ST_BOUNDED) CHECK(h::close(o.q->Ax_l[i], o.Ax[i] - l, TOL) && h::close(o.q->Ax_u[i], u - o.Ax[i], TOL), "slacks of constraint %ld: %g %g", i, o.q->Ax_l[i], o.q->Ax_u[i]);
    }
    o.stationary("performRamping");
}
struct Vec { double* v; Vec(long n, double f = 0) : v(new double[std::max(0L, n)]) { for (long i = 0; i < n; ++i) v[i] = f; } ~Vec() { delete[] v; } };
static void farb(h::Rng& R, bool cons) {
    Obj o(R, cons);
    long nV = o.nV, nC = o.nC;
    double r0 = o.p->ramp0 = R.coin() ? 0.5 : std::fabs(val(R)), r1 = o.p->ramp1 = R.coin() ? 1 : std::fabs(val(R)), F = R.coin() ? 1e6 : 4;
    long off = o.p->rampOffset = R.in(0, 20);
    bool rp = R.coin(); o.p->options.enableRamping = rp ? BT_TRUE : BT_FALSE;
    long n = R.one_in(4) ? nV + nC + R.in(0, 5) : nV + nC;
    bool has[4]; Vec* in[4]; Vec* out[4]; long m[4] = {nV, nV, nC, nC};
    std::string s;
    for (int k = 0; k < 4; ++k) { has[k] = !R.one_in(4); in[k] = new Vec(m[k]); out[k] = new Vec(m[k], 77); for (long i = 0; i < m[k]; ++i) in[k]->v[i] = R.one_in(3) ? (k % 2 ? INFTY : -INFTY) : R.one_in(4) ? (R.coin() ? 1 : -1) * 1e7 : R.in(-40, 40) / 4.0; s += h::arr(in[k]->v, has[k] ? m[k] : 0); }
    h::evalcase(h::fmt("updateFarBounds %s nV=%ld nC=%ld farbound=%g nRamp=%ld ramp0=%g ramp1=%g offset=%ld ramping=%d data lb,ub,lbA,ubA=%s", cons ? "QProblem" : "QProblemB", nV, nC, F, n, r0, r1, off, rp, s.c_str()));
    auto P = [&](int k) { return has[k] ? in[k]->v : (double*)0; };
    CHECK((cons ? o.q->updateFarBounds(F, n, P(0), out[0]->v, P(1), out[1]->v, P(2), out[2]->v, P(3), out[3]->v) : o.p->updateFarBounds(F, n, P(0), out[0]->v, P(1), out[1]->v)) == SUCCESSFUL_RETURN, "ret");
    for (int k = 0; k < (cons ? 4 : 2); ++k) {
        for (long i = 0; i < m[k]; ++i) {
            double r = rp ? F * (1 + ramp((k >= 2 ? nV : 0) + i + off, n, r0, r1)) : F;
            double w = k % 2 ? (has[k] ? std::min(r, in[k]->v[i]) : r) : (has[k] ? std::max(-r, in[k]->v[i]) : -r);
            CHECK(h::close(out[k]->v[i], w, TOL), "vector %d entry %ld is %.17g, expected %.17g", k, i, out[k]->v[i], w);
        }
    }
    for (int k = 0; k < 4; ++k) { delete in[k]; delete out[k]; }
}
// whole solves of separable problems: the solution is the projection of the unconstrained minimiser
static void solves(h::Rng& R) {
    long n = R.in(1, 4);
    bool cons = R.coin();
    std::vector<double> H(n * n), g(n), lb(n), ub(n), w(n);
    for (long i = 0; i < n; ++i) {
        H[i * n + i] = R.in(1, 4); lb[i] = R.one_in(4) ? -INFTY : R.in(-8, 4) / 2.0; ub[i] = R.one_in(4) ? INFTY : (lb[i] < -1e19 ? R.in(-4, 8) / 2.0 : lb[i] + R.in(0, 6) / 2.0);
    }
    Options op; if (R.coin()) op.setToReliable(); else op.setToDefault();
    op.printLevel = PL_NONE; op.enableRamping = R.one_in(3) ? BT_FALSE : BT_TRUE; op.enableFarBounds = R.one_in(3) ? BT_FALSE : BT_TRUE; op.enableDriftCorrection = R.coin(); if (R.coin()) { op.initialRamping = 0.25; op.finalRamping = 2; }
    QProblemB* p = cons ? new QProblem(n, 1) : new QProblemB(n);
    QUIET(); p->setOptions(op);
    CHECK(p->ramp0 == op.initialRamping && p->ramp1 == op.finalRamping, "ramping values of the options not used: %g %g", p->ramp0, p->ramp1);
    std::vector<double> A(n, 1.0); double la = -1e3, ua = 1e3;
    for (int round = 0; round < 3; ++round) {
        for (long i = 0; i < n; ++i) { g[i] = R.in(-12, 12) / 2.0; w[i] = std::min(std::max(-g[i] / H[i * n + i], lb[i]), ub[i]); }
        h::evalcase(h::fmt("solve round %d constraints=%d ramping=%d far=%d H=%s g=%s lb=%s ub=%s", round, cons, (int)op.enableRamping, (int)op.enableFarBounds, h::vec(H).c_str(), h::vec(g).c_str(), h::vec(lb).c_str(), h::vec(ub).c_str()));
        int_t nw = 100; returnValue rv;
        if (cons) rv = round ? ((QProblem*)p)->hotstart(g.data(), lb.data(), ub.data(), &la, &ua, nw) : ((QProblem*)p)->init(H.data(), g.data(), A.data(), lb.data(), ub.data(), &la, &ua, nw);
        else rv = round ? p->hotstart(g.data(), lb.data(), ub.data(), nw) : p->init(H.data(), g.data(), lb.data(), ub.data(), nw);
        CHECK(rv == SUCCESSFUL_RETURN, "return %d", (int)rv);
        std::vector<double> x(n); CHECK(p->getPrimalSolution(x.data()) == SUCCESSFUL_RETURN, "no solution");
        for (long i = 0; i < n; ++i) CHECK(h::close(x[i], w[i], 1e-7), "x[%ld]=%.12g, the minimiser is %.12g", i, x[i], w[i]);
    }
    delete p;
}
static void run(h::Rng& R) {
    for (long k = 0; k < 5000 * g_scale; ++k) { drift(R, false); drift(R, true); ramping(R, false); ramping(R, true); farb(R, false); farb(R, true); if (k % 4 == 0) solves(R); }
}
