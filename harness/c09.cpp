// C09: classification of limits, consistency of limits, infeasibility reports
#include "state.hpp"
struct Vec { double* v; Vec(const std::vector<double>& a, long n, bool on = true) : v(on ? new double[std::max(0L, n)] : 0) { if (on) for (long i = 0; i < n; ++i) v[i] = a[i]; } ~Vec() { delete[] v; } };
static double lim(h::Rng& R, int sg) { switch (R.in(0, 5)) { case 0: return sg * INFTY; case 1: return sg * 2 * INFTY; case 2: return sg * (INFTY - 1e5); default: return val(R); } }
static int want(double L, double U, double l0, double u0, bool hl, bool hu, const Options& o, int old, bool con) {
    if (con && old == ST_DISABLED) return ST_DISABLED;
    if (!hl && !hu) return ST_UNBOUNDED;
    if (!hl || !hu) return ST_BOUNDED;
    if (L < -INFTY + o.boundTolerance && U > INFTY - o.boundTolerance && o.enableFarBounds == BT_FALSE) return ST_UNBOUNDED;
    if (o.enableEqualities && l0 > u0 - o.boundTolerance && L > U - o.boundTolerance) return ST_EQUALITY;
    return ST_BOUNDED;
}
static void classes(h::Rng& R, bool cons) {
    Obj o(R, cons); long m[4] = {o.nV, o.nV, o.nC, o.nC};
    Options& op = o.p->options;
    op.enableEqualities = R.coin() ? BT_TRUE : BT_FALSE; op.enableFarBounds = R.coin() ? BT_TRUE : BT_FALSE; op.boundTolerance = R.coin() ? 1e6 * EPS : R.coin() ? 0.25 : 1e6;
    std::vector<double> v[4]; bool has[4]; Vec* a[4]; std::string s;
    bool narrow = R.coin();
    for (int k = 0; k < 4; ++k) { v[k].resize(std::max(1L, m[k])); for (auto& x : v[k]) x = lim(R, k % 2 ? 1 : -1); has[k] = !R.one_in(5); }
    if (narrow) for (int k = 0; k < 4; k += 2) for (long i = 0; i < m[k]; ++i) { int t = R.in(0, 5); v[k + 1][i] = t == 0 ? v[k][i] : t == 1 ? v[k][i] - EPS / 2 : t == 2 && R.one_in(6) ? v[k][i] - 1e-9 : v[k][i] + t * 0.25; }
    for (long i = 0; i < o.nV; ++i) if (R.coin()) o.p->ub[i] = o.p->lb[i] + (R.coin() ? 0 : 0.125);
    for (long i = 0; i < o.nC; ++i) if (R.coin()) o.q->ubA[i] = o.q->lbA[i] + (R.coin() ? 0 : 0.125);
    o.snap();
    for (int k = 0; k < 4; ++k) { a[k] = new Vec(v[k], m[k], has[k]); s += has[k] ? h::arr(a[k]->v, m[k]) : "0"; }
    h::evalcase(h::fmt("classify equalities=%d far=%d tol=%g new limits %s ", (int)op.enableEqualities, (int)op.enableFarBounds, op.boundTolerance, s.c_str()) + o.desc());
    bool crossed = false;
    for (int k = 0; k < 4; k += 2) if (has[k] && has[k + 1]) for (long i = 0; i < m[k]; ++i) if (v[k][i] > v[k + 1][i] + EPS) crossed = true;
    returnValue rv = cons ? o.q->areBoundsConsistent(a[0]->v, a[1]->v, a[2]->v, a[3]->v) : o.p->areBoundsConsistent(a[0]->v, a[1]->v);
    CHECK(rv == (crossed ? RET_QP_INFEASIBLE : SUCCESSFUL_RETURN), "consistency check returns %d, limits crossed: %d", (int)rv, crossed);
    rv = cons ? o.q->setupSubjectToType(a[0]->v, a[1]->v, a[2]->v, a[3]->v) : o.p->setupSubjectToType(a[0]->v, a[1]->v);
    CHECK(rv == SUCCESSFUL_RETURN, "ret %d", (int)rv);
    for (long i = 0; i < o.nV; ++i) { int w = want(v[0][i], v[1][i], o.lb[i], o.ub[i], has[0], has[1], op, o.bt[i], false); CHECK(o.p->bounds.type[i] == w, "type of bound %ld is %d, expected %d", i, (int)o.p->bounds.type[i], w); CHECK(o.p->bounds.status[i] == o.bs[i] && o.p->lb[i] == o.lb[i] && o.p->ub[i] == o.ub[i], "bound %ld changed", i); }
    for (long i = 0; i < o.nC; ++i) { int w = want(v[2][i], v[3][i], o.lbA[i], o.ubA[i], has[2], has[3], op, o.ct[i], true); CHECK(o.q->constraints.type[i] == w, "type of constraint %ld is %d, expected %d", i, (int)o.q->constraints.type[i], w); CHECK(o.q->constraints.status[i] == o.cs[i] && o.q->lbA[i] == o.lbA[i] && o.q->ubA[i] == o.ubA[i], "constraint %ld changed", i); }
    for (int k = 0; k < (cons ? 4 : 2); ++k) {
        bool none = true; if (has[k]) for (long i = 0; i < m[k]; ++i) if (k % 2 ? v[k][i] < INFTY : v[k][i] > -INFTY) none = false;
        const SubjectTo& S = k < 2 ? (const SubjectTo&)o.p->bounds : (const SubjectTo&)o.q->constraints;
        CHECK((k % 2 ? S.noUpper : S.noLower) == (none ? BT_TRUE : BT_FALSE), "flag for absent limits of vector %d is %d", k, (int)(k % 2 ? S.noUpper : S.noLower));
    }
    for (int k = 0; k < 4; ++k) delete a[k];
    o.p->infeasible = BT_FALSE; returnValue e = R.coin() ? RET_HOTSTART_STOPPED_INFEASIBILITY : RET_QP_INFEASIBLE;
    CHECK(o.p->setInfeasibilityFlag(e, R.coin() ? BT_TRUE : BT_FALSE) == e && o.p->infeasible == BT_TRUE, "infeasibility flag");
}
struct P {   // uniform access to both classes
    bool cons; QProblem* q; QProblemB* p; h::QP d;
    P(const h::QP& d_, bool c) : cons(c), q(0), p(0), d(d_) { if (c) p = q = new QProblem(d.nV, d.nC); else p = new QProblemB(d.nV); QUIET(); }
    ~P() { delete p; }
    returnValue init(int_t n = 300) { return cons ? q->init(d.H.data(), d.g.data(), d.A.data(), d.lb.data(), d.ub.data(), d.lbA.data(), d.ubA.data(), n) : p->init(d.H.data(), d.g.data(), d.lb.data(), d.ub.data(), n); }
    returnValue hot(int_t n = 300) { return cons ? q->hotstart(d.g.data(), d.lb.data(), d.ub.data(), d.lbA.data(), d.ubA.data(), n) : p->hotstart(d.g.data(), d.lb.data(), d.ub.data(), n); }
};
static Options opts(h::Rng& R) { Options o; int k = R.in(0, 2); if (k == 0) o.setToDefault(); else if (k == 1) o.setToMPC(); else o.setToReliable(); o.printLevel = PL_NONE; return o; }
// crossed limits: reported, marked, nothing else touched, and the object stays usable
static void crossing(h::Rng& R, bool cons) {
    h::QP d = h::randqp(R, R.in(1, 4), cons ? R.in(1, 3) : 0);
    P s(d, cons), f(d, cons); Options op = opts(R); s.p->setOptions(op); f.p->setOptions(op);
    bool atinit = R.one_in(3);
    long i = R.in(0, d.nV + (cons ? d.nC : 0) - 1); double gap = R.coin() ? 1 : 1e-9;
    h::evalcase(h::fmt("crossed limits at index %ld by %g, at init %d, constraints %d, ", i, gap, atinit, cons) + h::desc(d));
    auto cross = [&](h::QP& q) { double& l = i < q.nV ? q.lb[i] : q.lbA[i - q.nV]; double& u = i < q.nV ? q.ub[i] : q.ubA[i - q.nV]; if (u > 1e19) u = 1; l = u + gap; };
    if (atinit) {
        cross(f.d); returnValue rv = f.init();
        CHECK(rv == RET_INIT_FAILED_INFEASIBILITY && f.p->isInfeasible() == BT_TRUE && f.p->isSolved() == BT_FALSE, "init with crossed limits returns %d, infeasible %d", (int)rv, (int)f.p->isInfeasible());
        return;
    }
    if (s.init() != SUCCESSFUL_RETURN) return;
    CHECK(s.p->isInfeasible() == BT_FALSE && s.p->isSolved() == BT_TRUE, "flags after a successful solve");
    std::vector<double> x(s.p->x, s.p->x + d.nV), y(s.p->y, s.p->y + d.nV + (cons ? d.nC : 0)), ws(d.nV + d.nC);
    h::QP good = s.d; cross(s.d); returnValue rv = s.hot();
    CHECK(rv == RET_HOTSTART_STOPPED_INFEASIBILITY && s.p->isInfeasible() == BT_TRUE, "hotstart with crossed limits returns %d, infeasible %d", (int)rv, (int)s.p->isInfeasible());
    for (long k = 0; k < d.nV; ++k) CHECK(s.p->x[k] == x[k], "x[%ld] changed", k);
    for (size_t k = 0; k < y.size(); ++k) CHECK(s.p->y[k] == y[k], "y[%ld] changed", (long)k);
    s.d = good; rv = s.hot();
    CHECK(rv == SUCCESSFUL_RETURN && s.p->isInfeasible() == BT_FALSE && s.p->isSolved() == BT_TRUE, "hotstart after the crossed limits returns %d, infeasible %d", (int)rv, (int)s.p->isInfeasible());
    for (long k = 0; k < d.nV; ++k) CHECK(h::close(s.p->x[k], x[k], 1e-7), "x[%ld]=%.12g after the repeated hotstart, was %.12g", k, s.p->x[k], x[k]);
}
// consistent limits, but a constraint cannot be met within the bounds: never solved, reported infeasible
static void unreachable(h::Rng& R) {
    h::QP d = h::randqp(R, R.in(1, 4), R.in(1, 3));
    for (long i = 0; i < d.nV; ++i) { if (d.lb[i] < -1e19) d.lb[i] = std::min(d.ub[i], 0.0) - 3; if (d.ub[i] > 1e19) d.ub[i] = std::max(d.lb[i], 0.0) + 3; }
    P s(d, true); s.p->setOptions(opts(R)); bool atinit = R.coin();
    long r = R.in(0, d.nC - 1); double lo = 0, hi = 0, nrm = 0;
    for (long i = 0; i < d.nV; ++i) { double a = d.A[r * d.nV + i]; lo += a > 0 ? a * d.lb[i] : a * d.ub[i]; hi += a > 0 ? a * d.ub[i] : a * d.lb[i]; nrm += std::fabs(a); }
    if (nrm < 0.25) return;
    if (R.coin()) { s.d.lbA[r] = hi + 1; s.d.ubA[r] = R.coin() ? INFTY : hi + 2; } else { s.d.ubA[r] = lo - 1; s.d.lbA[r] = R.coin() ? -INFTY : lo - 2; }
    h::evalcase(h::fmt("constraint %ld out of reach, at init %d, ", r, atinit) + h::desc(s.d));
    h::QP bad = s.d; returnValue rv;
    if (atinit) rv = s.init(); else { s.d = d; if (s.init() != SUCCESSFUL_RETURN) return; s.d = bad; rv = s.hot(); }
    CHECK(rv != SUCCESSFUL_RETURN && s.p->isSolved() == BT_FALSE, "infeasible QP reported as solved (%d)", (int)rv);
    CHECK(s.p->isInfeasible() == BT_TRUE && rv == (atinit ? RET_INIT_FAILED_INFEASIBILITY : RET_HOTSTART_STOPPED_INFEASIBILITY), "infeasible QP: return %d, flag %d", (int)rv, (int)s.p->isInfeasible());
}
// types and sides at the beginning of a homotopy
static void adapting(h::Rng& R) {
    Obj o(R, false); std::vector<double> l = rnd(R, o.nV), u = l, y = rnd(R, o.nV);
    for (auto& t : u) if (R.coin()) t += R.coin() ? 0.25 : -0.25;
    o.p->options.boundTolerance = R.coin() ? 1e6 * EPS : 0.5;
    h::evalcase("adaptImplicitEqualities l=" + h::vec(l) + " u=" + h::vec(u) + " y=" + h::vec(y) + " " + o.desc());
    CHECK(o.p->adaptImplicitEqualities(&o.p->bounds, o.nV, l.data(), u.data(), y.data()) == SUCCESSFUL_RETURN, "ret");
    for (long i = 0; i < o.nV; ++i) {
        int t = o.bt[i], s = o.bs[i];
        if (t == ST_EQUALITY) { if (s == ST_INACTIVE) t = ST_BOUNDED; } else if (l[i] > u[i] - o.p->options.boundTolerance) { if (s == ST_LOWER && y[i] < 0) s = ST_UPPER; else if (s == ST_UPPER && y[i] > 0) s = ST_LOWER; }
        CHECK(o.p->bounds.type[i] == t && o.p->bounds.status[i] == s, "index %ld: type %d status %d, expected %d %d", i, (int)o.p->bounds.type[i], (int)o.p->bounds.status[i], t, s);
    }
}
// separable problems whose limits change their kind (none, one-sided, two-sided, equality) from one hotstart to the next
static void kinds(h::Rng& R) {
    long n = R.in(1, 3); int cl = R.in(0, 2);   // limits on variables (both classes) or on constraints
    Options op = opts(R); if (R.coin()) op.enableEqualities = BT_TRUE; if (R.coin()) op.enableFarBounds = BT_FALSE;
    QProblemB* p = cl ? new QProblem(n, n) : new QProblemB(n); QProblem* q = cl ? (QProblem*)p : 0; QUIET(); p->setOptions(op);
    std::vector<double> H(n * n), A(n * n), g(n), l(n), u(n), w(n, -INFTY), W(n, INFTY), x(n);
    double d = R.in(1, 3); for (long i = 0; i < n; ++i) { H[i * n + i] = d; A[i * n + i] = 1; }
    std::string hist;
    for (int round = 0; round < 4; ++round) {
        for (long i = 0; i < n; ++i) { g[i] = R.in(-12, 12) / 2.0; l[i] = R.in(-8, 8) / 2.0; switch (R.in(0, 5)) { case 0: l[i] = -INFTY; u[i] = INFTY; break; case 1: u[i] = INFTY; break; case 2: u[i] = l[i]; l[i] = -INFTY; break; case 3: u[i] = l[i]; break; default: u[i] = l[i] + R.in(1, 8) / 2.0; } }
        bool nol = R.one_in(8), nou = R.one_in(8);
        if (nol) std::fill(l.begin(), l.end(), -INFTY); if (nou) std::fill(u.begin(), u.end(), INFTY);
        const double *L = nol ? 0 : l.data(), *U = nou ? 0 : u.data();
        hist += h::fmt(" round %d: g=%s l=%s u=%s absent %d %d", round, h::vec(g).c_str(), h::vec(l).c_str(), h::vec(u).c_str(), nol, nou);
        h::evalcase(h::fmt("changing limits, limits on %s, round %d, equalities %d, far bounds %d, diagonal %g,", cl == 0 ? "QProblemB" : cl == 1 ? "QProblem bounds" : "constraints", round, (int)op.enableEqualities, (int)op.enableFarBounds, d) + hist);
        int_t nw = 200; returnValue rv;
        if (cl == 0) rv = round ? p->hotstart(g.data(), L, U, nw) : p->init(H.data(), g.data(), L, U, nw);
        else if (cl == 1) rv = round ? q->hotstart(g.data(), L, U, R.coin() ? w.data() : 0, W.data(), nw) : q->init(H.data(), g.data(), A.data(), L, U, w.data(), W.data(), nw);
        else rv = round ? q->hotstart(g.data(), R.coin() ? w.data() : 0, W.data(), L, U, nw) : q->init(H.data(), g.data(), A.data(), w.data(), W.data(), L, U, nw);
        CHECK(rv == SUCCESSFUL_RETURN && p->isInfeasible() == BT_FALSE, "return %d", (int)rv);
        CHECK(p->getPrimalSolution(x.data()) == SUCCESSFUL_RETURN, "no solution");
        for (long i = 0; i < n; ++i) { double v = std::min(std::max(-g[i] / d, l[i]), u[i]); CHECK(h::close(x[i], v, 1e-6), "x[%ld]=%.12g, the minimiser is %.12g", i, x[i], v); }
    }
    delete p;
}
static void run(h::Rng& R) {
    for (long k = 0; k < 20000 * g_scale; ++k) { classes(R, false); classes(R, true); if (k % 4 == 0) { adapting(R); kinds(R); } }
    for (long k = 0; k < 2500 * g_scale; ++k) { crossing(R, false); crossing(R, true); unreachable(R); }
}
