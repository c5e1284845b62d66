// C08: KKT violation metric, exported working sets
#include "state.hpp"
struct Vec { double* v; Vec(const std::vector<double>& a, long n, bool on = true) : v(on ? new double[std::max(0L, n)] : 0) { if (on) for (long i = 0; i < n; ++i) v[i] = a[i]; } ~Vec() { delete[] v; } };
struct In { long nV, nC; const double *H, *g, *A, *lb, *ub, *lbA, *ubA, *x, *y, *wB, *wC; bool ident; };
static void metric(const In& d, double& st, double& fe, double& cm) {
    st = fe = cm = 0; const double tol = 1e3 * EPS;
    for (long i = 0; i < d.nV; ++i) {
        double r = (d.g ? d.g[i] : 0) - d.y[i];
        if (d.H) for (long j = 0; j < d.nV; ++j) r += d.H[i * d.nV + j] * d.x[j]; else if (d.ident) r += d.x[i];
        if (d.A) for (long j = 0; j < d.nC; ++j) r -= d.A[j * d.nV + i] * d.y[d.nV + j];
        st = std::max(st, std::fabs(r));
    }
    for (int part = 0; part < 2; ++part) for (long i = 0; i < (part ? d.nC : d.nV); ++i) {
        double v = part ? 0 : d.x[i]; if (part && d.A) for (long j = 0; j < d.nV; ++j) v += d.A[i * d.nV + j] * d.x[j];
        const double *l = part ? d.lbA : d.lb, *u = part ? d.ubA : d.ub, *w = part ? d.wC : d.wB; double yy = d.y[part ? d.nV + i : i], p = 0;
        if (l) fe = std::max(fe, l[i] - v); if (u) fe = std::max(fe, v - u[i]);
        bool al = w ? w[i] == -1 : yy > tol, au = w ? w[i] == 1 : yy < -tol;
        if (l && al) p = (v - l[i]) * yy;
        if (u && au) p = (v - u[i]) * yy;
        cm = std::max(cm, std::fabs(p));
    }
}
static void check3(double s, double f, double c, double S, double F, double C) {
    CHECK(h::close(s, S, 1e-10), "stationarity %.17g, expected %.17g", s, S);
    CHECK(h::close(f, F, 1e-10), "feasibility %.17g, expected %.17g", f, F);
    CHECK(h::close(c, C, 1e-10), "complementarity %.17g, expected %.17g", c, C);
}
static void direct(h::Rng& R) {
    long nV = R.in(0, 5), nC = R.in(0, 4);
    auto v = [&](long n) { return rnd(R, n); };
    auto H = v(nV * nV), g = v(nV), A = v(nC * nV), lb = v(nV), ub = v(nV), la = v(nC), ua = v(nC), x = v(nV), y = v(nV + nC), wB = v(nV), wC = v(nC);
    int focus = R.in(0, 4);          // make single terms dominate
    if (focus == 1) for (auto* p : {&lb, &ub, &la, &ua}) for (auto& z : *p) z *= R.one_in(3) ? 50 : 0.01;
    if (focus == 2) for (auto& z : y) z = R.one_in(2) ? z * 40 : z * 1e-14;
    if (focus == 3) { for (auto& z : x) z = 0; for (auto& z : y) z = R.one_in(3) ? z : 0; }
    for (auto& z : wB) z = R.in(-1, 1); for (auto& z : wC) z = R.in(-1, 1);
    auto on = [&]() { return !R.one_in(4); };
    Vec h_(H, nV * nV, on()), g_(g, nV, on()), A_(A, nC * nV, on()), l_(lb, nV, on()), u_(ub, nV, on()), la_(la, nC, on()), ua_(ua, nC, on()), x_(x, nV), y_(y, nV + nC), wb(wB, nV, R.coin()), wc(wC, nC, R.coin());
    In d = {nV, nC, h_.v, g_.v, A_.v, l_.v, u_.v, la_.v, ua_.v, x_.v, y_.v, wb.v, wc.v, R.coin()};
    auto pr = [&](const double* p, long n) { return p ? h::arr(p, n) : std::string("0"); };
    h::evalcase(h::fmt("getKktViolation nV=%ld nC=%ld H=%s g=%s A=%s lb=%s ub=%s lbA=%s ubA=%s x=%s y=%s workingSetB=%s workingSetC=%s identity=%d", nV, nC, pr(d.H, nV * nV).c_str(), pr(d.g, nV).c_str(), pr(d.A, nV * nC).c_str(), pr(d.lb, nV).c_str(), pr(d.ub, nV).c_str(), pr(d.lbA, nC).c_str(), pr(d.ubA, nC).c_str(), pr(d.x, nV).c_str(), pr(d.y, nV + nC).c_str(), pr(d.wB, nV).c_str(), pr(d.wC, nC).c_str(), d.ident));
    double s = 7, f = 7, c = 7, S, F, C;
    metric(d, S, F, C);
    CHECK(getKktViolation(nV, nC, d.H, d.g, d.A, d.lb, d.ub, d.lbA, d.ubA, d.x, d.y, s, f, c, d.wB, d.wC, d.ident ? BT_TRUE : BT_FALSE) == SUCCESSFUL_RETURN, "ret");
    check3(s, f, c, S, F, C);
    d.nC = 0; metric(d, S, F, C);
    s = f = c = 7;
    CHECK(getKktViolation(nV, d.H, d.g, d.lb, d.ub, d.x, d.y, s, f, c, d.wB, d.ident ? BT_TRUE : BT_FALSE) == SUCCESSFUL_RETURN, "ret");
    check3(s, f, c, S, F, C);
}
static double wst(int s) { return s == ST_LOWER ? -1 : s == ST_UPPER ? 1 : 0; }
static void object(h::Rng& R, bool cons) {
    Obj o(R, cons);
    h::evalcase("SolutionAnalysis / working sets " + o.desc());
    std::vector<double> wB(o.nV), wC(o.nC), both(o.nV + o.nC, 7), only(o.nV, 7), onlyC(o.nC, 7);
    for (long i = 0; i < o.nV; ++i) wB[i] = wst(o.bs[i]);
    for (long i = 0; i < o.nC; ++i) wC[i] = wst(o.cs[i]);
    { Vec a(both, o.nV + o.nC), b(only, o.nV), c(onlyC, o.nC);
      CHECK(o.p->getWorkingSet(a.v) == SUCCESSFUL_RETURN && o.p->getWorkingSetBounds(b.v) == SUCCESSFUL_RETURN && o.p->getWorkingSetConstraints(c.v) == SUCCESSFUL_RETURN, "ret");
      for (long i = 0; i < o.nV; ++i) CHECK(b.v[i] == wB[i] && a.v[i] == wB[i], "working set of bound %ld: %g %g, status %d", i, b.v[i], a.v[i], o.bs[i]);
      for (long i = 0; i < o.nC; ++i) CHECK(c.v[i] == wC[i] && a.v[o.nV + i] == wC[i], "working set of constraint %ld: %g %g, status %d", i, c.v[i], a.v[o.nV + i], o.cs[i]);
      CHECK(o.p->getWorkingSet(0) == RET_INVALID_ARGUMENTS && o.p->getWorkingSetBounds(0) == RET_INVALID_ARGUMENTS && o.p->getWorkingSetConstraints(0) == RET_INVALID_ARGUMENTS, "null"); }
    if (cons && !o.nC) return;
    std::vector<double> H = o.H;
    bool quad = o.p->hessianType != HST_ZERO && o.p->hessianType != HST_IDENTITY;
    if (o.p->regVal > ZERO) for (long i = 0; i < o.nV; ++i) H[i * o.nV + i] -= o.p->regVal;
    In d = {o.nV, o.nC, quad ? H.data() : 0, o.g.data(), cons ? o.A.data() : 0, o.lb.data(), o.ub.data(), o.lbA.data(), o.ubA.data(), o.x.data(), o.y.data(), wB.data(), wC.data(), o.p->hessianType == HST_IDENTITY};
    double S, F, C, s = 7, f = 7, c = 7;
    metric(d, S, F, C);
    SolutionAnalysis sa;
    int m = R.in(0, 7);
    double w = cons ? sa.getKktViolation(o.q, m & 1 ? &s : 0, m & 2 ? &f : 0, m & 4 ? &c : 0) : sa.getKktViolation(o.p, m & 1 ? &s : 0, m & 2 ? &f : 0, m & 4 ? &c : 0);
    CHECK(h::close(w, std::max(S, std::max(F, C)), 1e-10), "violation %.17g, expected the largest of %.17g %.17g %.17g", w, S, F, C);
    if (m & 1) CHECK(h::close(s, S, 1e-10), "stationarity %.17g, expected %.17g", s, S); else CHECK(s == 7, "unrequested");
    if (m & 2) CHECK(h::close(f, F, 1e-10), "feasibility %.17g, expected %.17g", f, F);
    if (m & 4) CHECK(h::close(c, C, 1e-10), "complementarity %.17g, expected %.17g", c, C);
    o.snap();
}
static void run(h::Rng& R) {
    SolutionAnalysis sa;
    h::evalcase("no object");
    CHECK(sa.getKktViolation((QProblemB*)0) == INFTY && sa.getKktViolation((QProblem*)0) == INFTY && sa.getKktViolation((SQProblem*)0) == INFTY, "null object");
    for (long k = 0; k < 12000 * g_scale; ++k) { direct(R); object(R, false); object(R, true); }
    for (long k = 0; k < 300 * g_scale; ++k) {
        h::QP q = h::randqp(R, R.in(1, 5), R.in(1, 4));
        SQProblem p(q.nV, q.nC); QUIET(); Options op; op.printLevel = PL_NONE; p.setOptions(op);
        int_t n = 100;
        h::evalcase("solved " + h::desc(q));
        if (p.init(q.H.data(), q.g.data(), q.A.data(), q.lb.data(), q.ub.data(), q.lbA.data(), q.ubA.data(), n) != SUCCESSFUL_RETURN) continue;
        double s, f, c, w = sa.getKktViolation(&p, &s, &f, &c);
        std::vector<double> wB(q.nV), wC(q.nC), x(q.nV), y(q.nV + q.nC);
        p.getWorkingSetBounds(wB.data()); p.getWorkingSetConstraints(wC.data()); p.getPrimalSolution(x.data()); p.getDualSolution(y.data());
        In d = {q.nV, q.nC, q.H.data(), p.g, q.A.data(), p.lb, p.ub, p.lbA, p.ubA, x.data(), y.data(), wB.data(), wC.data(), false};
        double S, F, C; metric(d, S, F, C);
        CHECK(std::fabs(s - S) < 1e-9 && std::fabs(f - F) < 1e-9 && std::fabs(c - C) < 1e-9 && std::fabs(w - std::max(S, std::max(F, C))) < 1e-9, "metric of a solved problem: %g %g %g, expected %g %g %g", s, f, c, S, F, C);
    }
}
