// C07: data shift, relative length, auxiliary QP
#include "state.hpp"
static const double TOL = 1e-12;
// heap copies of exactly the needed size, so that an out-of-range access is seen
struct Vec { double* v; Vec(const std::vector<double>& a, long n) : v(new double[std::max(0L, n)]) { for (long i = 0; i < n; ++i) v[i] = a[i]; } ~Vec() { delete[] v; } };

static void shift(h::Rng& R, bool cons) {
    Obj o(R, cons);
    long nV = o.nV, nC = o.nC;
    auto near = [&](const std::vector<double>& old) { auto v = old; for (auto& z : v) if (!R.one_in(3)) z = R.one_in(4) ? z + (R.coin() ? 1e-16 : -1e-16) : R.one_in(3) ? z + (R.coin() ? 3e-16 : -3e-16) : R.one_in(8) ? (R.coin() ? INFTY : -INFTY) : val(R); return v; };
    bool still = R.coin();
    auto nw = [&](const std::vector<double>& old) { return still && !R.one_in(3) ? old : near(old); };
    if (R.one_in(3)) { for (long i = 0; i < nV; ++i) { o.p->lb[i] = -INFTY; o.p->ub[i] = INFTY; } if (cons) for (long i = 0; i < nC; ++i) { o.q->lbA[i] = -INFTY; o.q->ubA[i] = INFTY; } }
    else if (still) for (long i = 0; i < nV; ++i) { o.p->lb[i] /= 1024; o.p->ub[i] /= 1024; }
    o.snap();
    std::vector<double> G = nw(o.g), L = nw(o.lb), U = nw(o.ub), LA = nw(o.lbA), UA = nw(o.ubA);
    bool hl = !R.one_in(4), hu = !R.one_in(4), hla = !R.one_in(4), hua = !R.one_in(4);
    Vec g(G, nV), l(L, nV), u(U, nV), la(LA, nC), ua(UA, nC);
    h::evalcase(h::fmt("determineDataShift g=%s lb=%s ub=%s lbA=%s ubA=%s ", h::vec(G).c_str(), hl ? h::vec(L).c_str() : "0", hu ? h::vec(U).c_str() : "0", hla ? h::vec(LA).c_str() : "0", hua ? h::vec(UA).c_str() : "0") + o.desc());
    std::vector<double> dG(nV), dL(nV), dU(nV), dLA(nC), dUA(nC);
    { Vec a(dG, nV), b(dL, nV), c(dU, nV), d(dLA, nC), e(dUA, nC);
      BooleanType zb = (BooleanType)7, zc = (BooleanType)7;
      returnValue rv = cons ? o.q->determineDataShift(g.v, hla ? la.v : 0, hua ? ua.v : 0, hl ? l.v : 0, hu ? u.v : 0, a.v, d.v, e.v, b.v, c.v, zc, zb) : o.p->determineDataShift(g.v, hl ? l.v : 0, hu ? u.v : 0, a.v, b.v, c.v, zb);
      CHECK(rv == SUCCESSFUL_RETURN, "ret %d", (int)rv);
      bool eb = true, ec = true;
      for (long i = 0; i < nV; ++i) {
          CHECK(a.v[i] == G[i] - o.g[i], "delta_g[%ld]=%g", i, a.v[i]);
          CHECK(b.v[i] == (hl ? L[i] : -INFTY) - o.lb[i], "delta_lb[%ld]=%g", i, b.v[i]);
          CHECK(c.v[i] == (hu ? U[i] : INFTY) - o.ub[i], "delta_ub[%ld]=%g", i, c.v[i]);
          if (o.bs[i] != ST_INACTIVE && (std::fabs(b.v[i]) > EPS || std::fabs(c.v[i]) > EPS)) eb = false;
      }
      for (long i = 0; i < nC; ++i) {
          CHECK(d.v[i] == (hla ? LA[i] : -INFTY) - o.lbA[i], "delta_lbA[%ld]=%g", i, d.v[i]);
          CHECK(e.v[i] == (hua ? UA[i] : INFTY) - o.ubA[i], "delta_ubA[%ld]=%g", i, e.v[i]);
          if (o.cs[i] != ST_INACTIVE && (std::fabs(d.v[i]) > EPS || std::fabs(e.v[i]) > EPS)) ec = false;
      }
      CHECK(zb == (eb ? BT_TRUE : BT_FALSE), "flag for the bounds of fixed variables is %d, expected %d", (int)zb, eb);
      if (cons) CHECK(zc == (ec ? BT_TRUE : BT_FALSE), "flag for the limits of active constraints is %d, expected %d", (int)zc, ec); }
    double want = 0;
    auto rel = [&](const std::vector<double>& n, const std::vector<double>& old, long m) { for (long i = 0; i < m; ++i) want = std::max(want, std::fabs(n[i] - old[i]) / std::max(1.0, std::fabs(n[i]))); };
    rel(G, o.g, nV); if (hl) rel(L, o.lb, nV); if (hu) rel(U, o.ub, nV); if (cons && hla) rel(LA, o.lbA, nC); if (cons && hua) rel(UA, o.ubA, nC);
    double len = cons ? o.q->getRelativeHomotopyLength(g.v, hl ? l.v : 0, hu ? u.v : 0, hla ? la.v : 0, hua ? ua.v : 0) : o.p->getRelativeHomotopyLength(g.v, hl ? l.v : 0, hu ? u.v : 0);
    CHECK(h::close(len, want, TOL), "getRelativeHomotopyLength %.17g, the largest relative change is %.17g", len, want);
}
static void aux(h::Rng& R, bool cons) {
    Obj o(R, cons);
    long nV = o.nV, nC = o.nC;
    std::vector<double> X = rnd(R, nV), Y = rnd(R, nV + nC);
    int mx = R.in(0, 2), my = R.in(0, 2);       // given, absent, the object's own vector
    { Vec xs(X, nV), ys(Y, nV + nC);
      h::evalcase(h::fmt("setupAuxiliaryQPsolution mode %d %d xOpt=%s yOpt=%s ", mx, my, h::vec(X).c_str(), h::vec(Y).c_str()) + o.desc());
      auto px = mx == 0 ? xs.v : mx == 1 ? (double*)0 : o.p->x; auto py = my == 0 ? ys.v : my == 1 ? (double*)0 : o.p->y;
      if (!(cons && nC == 0)) {
      CHECK((cons ? o.q->setupAuxiliaryQPsolution(px, py) : o.p->setupAuxiliaryQPsolution(px, py)) == SUCCESSFUL_RETURN, "ret");
      for (long i = 0; i < nV; ++i) CHECK(o.p->x[i] == (mx == 0 ? X[i] : mx == 1 ? 0 : o.x[i]), "x[%ld]=%g", i, o.p->x[i]);
      for (long i = 0; i < nV + nC; ++i) CHECK(o.p->y[i] == (my == 0 ? Y[i] : my == 1 ? 0 : o.y[i]), "y[%ld]=%g", i, o.p->y[i]);
      for (long i = 0; i < nC; ++i) { double w = o.Arow(o.p->x, i); CHECK(h::close(o.q->Ax[i], w, TOL) && h::close(o.q->Ax_l[i], w, TOL) && h::close(o.q->Ax_u[i], w, TOL), "products of constraint %ld: %g %g %g, expected %g", i, o.q->Ax[i], o.q->Ax_l[i], o.q->Ax_u[i], w); } } }
    if (cons && nC == 0) return;
    o.snap();
    // bounds of the auxiliary QP
    bool relax = R.coin(); double d = o.p->options.boundRelaxation = R.coin() ? 1e4 : 0.25;
    Bounds ab(nV); Constraints ac(nC);
    for (long i = 0; i < nV; ++i) ab.setupBound(i, R.coin() ? (SubjectToStatus)o.bs[i] : STATS[R.in(0, 2)]);
    for (long i = 0; i < nC; ++i) ac.setupConstraint(i, R.coin() ? (SubjectToStatus)o.cs[i] : STATS[R.in(0, 2)]);
    h::evalcase(h::fmt("setupAuxiliaryQPbounds relax=%d relaxation=%g auxiliary bounds %s constraints %s ", relax, d, h::arr(ab.status, nV).c_str(), h::arr(ac.status, nC).c_str()) + o.desc());
    CHECK((cons ? o.q->setupAuxiliaryQPbounds(&ab, &ac, relax ? BT_TRUE : BT_FALSE) : o.p->setupAuxiliaryQPbounds(relax ? BT_TRUE : BT_FALSE)) == SUCCESSFUL_RETURN, "ret");
    auto expect = [&](bool eq, int st, int wanted, bool useWanted, double p, double l0, double u0, double& l, double& u) {
        l = l0; u = u0;
        if (st == ST_LOWER) { l = p; if (eq) u = p; else if (relax) u = p + d; }
        else if (st == ST_UPPER) { u = p; if (eq) l = p; else if (relax) l = p - d; }
        else if (relax) { if (eq) l = u = p; else { l = useWanted && wanted == ST_LOWER ? p : p - d; u = useWanted && wanted == ST_UPPER ? p : p + d; } }
    };
    for (long i = 0; i < nV; ++i) {
        double l, u; expect(o.bt[i] == ST_EQUALITY, o.bs[i], ab.status[i], cons, o.x[i], o.lb[i], o.ub[i], l, u);
        CHECK(o.p->lb[i] == l && o.p->ub[i] == u, "bounds of variable %ld are [%g,%g], expected [%g,%g]", i, o.p->lb[i], o.p->ub[i], l, u);
    }
    for (long i = 0; i < nC; ++i) {
        double l, u; expect(o.ct[i] == ST_EQUALITY, o.cs[i], ac.status[i], true, o.Ax[i], o.lbA[i], o.ubA[i], l, u);
        CHECK(o.q->lbA[i] == l && o.q->ubA[i] == u, "limits of constraint %ld are [%g,%g], expected [%g,%g]", i, o.q->lbA[i], o.q->ubA[i], l, u);
        CHECK(o.q->Ax_l[i] == o.Ax[i] - l && o.q->Ax_u[i] == u - o.Ax[i], "slacks of constraint %ld are %g %g", i, o.q->Ax_l[i], o.q->Ax_u[i]);
    }
    h::evalcase("setupAuxiliaryQPgradient " + o.desc());
    CHECK((cons ? o.q->setupAuxiliaryQPgradient() : o.p->setupAuxiliaryQPgradient()) == SUCCESSFUL_RETURN, "ret");
    o.stationary("setupAuxiliaryQPgradient");
}
static void run(h::Rng& R) {
    for (long k = 0; k < 6000 * g_scale; ++k) { shift(R, false); shift(R, true); aux(R, false); aux(R, true); }
}
