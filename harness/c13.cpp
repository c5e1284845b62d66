// C13: solver calls stop as documented: limits on working set changes and CPU time, not initialised
#include "qps.hpp"
#include <unistd.h>
#include <fcntl.h>
USING_NAMESPACE_QPOASES
struct Mute {   // printing of the library goes nowhere
    int fd; Mute() { fflush(stdout); fd = dup(1); int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); } ~Mute() { fflush(stdout); dup2(fd, 1); close(fd); } };
struct P {
    bool cons; QProblem* q; QProblemB* p; h::QP d;
    P(const h::QP& d_, bool c) : cons(c), q(0), p(0), d(d_) { if (c) p = q = new QProblem(d.nV, d.nC); else p = new QProblemB(d.nV); QUIET(); }
    ~P() { delete p; }
    returnValue init(int_t& n, double* t = 0) { return cons ? q->init(d.H.data(), d.g.data(), d.A.data(), d.lb.data(), d.ub.data(), d.lbA.data(), d.ubA.data(), n, t) : p->init(d.H.data(), d.g.data(), d.lb.data(), d.ub.data(), n, t); }
    returnValue hot(int_t& n, double* t = 0) { return cons ? q->hotstart(d.g.data(), d.lb.data(), d.ub.data(), d.lbA.data(), d.ubA.data(), n, t) : p->hotstart(d.g.data(), d.lb.data(), d.ub.data(), n, t); }
};
static Options opts(h::Rng& R, bool safe) {
    Options o; if (R.coin()) o.setToDefault(); else if (R.coin() || safe) o.setToReliable(); else o.setToMPC();
    o.printLevel = PL_NONE; if (R.coin()) o.enableFarBounds = BT_FALSE;
    return o;
}
static void same(P& a, P& b, const char* what) {
    for (long k = 0; k < a.d.nV; ++k) CHECK(h::close(a.p->x[k], b.p->x[k], 1e-6), "%s: x[%ld]=%.12g, solved at once %.12g", what, k, a.p->x[k], b.p->x[k]);
}
static void state(P& s, returnValue rv, int_t lim, int_t n, bool timed, const char* what) {
    CHECK(n <= lim, "%s: %d changes reported, limit %d", what, (int)n, (int)lim);
    if (rv == SUCCESSFUL_RETURN) CHECK(n < std::max(1L, (long)lim) && n >= 0 && s.p->isSolved() == BT_TRUE && s.p->isInfeasible() == BT_FALSE && s.p->isUnbounded() == BT_FALSE, "%s: success with %d changes, limit %d, solved %d, infeasible %d, unbounded %d", what, (int)n, (int)lim, (int)s.p->isSolved(), (int)s.p->isInfeasible(), (int)s.p->isUnbounded());
    if (rv == RET_MAX_NWSR_REACHED && !timed) CHECK(n == lim, "%s: stopped after %d changes, limit %d", what, (int)n, (int)lim);
    if (rv == RET_MAX_NWSR_REACHED) CHECK(s.p->getStatus() == QPS_HOMOTOPYQPSOLVED || s.p->getStatus() == QPS_AUXILIARYQPSOLVED || s.p->getStatus() == QPS_SOLVED, "%s: status %d after the limit was reached", what, (int)s.p->getStatus());
}
// small budgets: never exceeded, and going on leads to the solution
static void budgets(h::Rng& R, bool cons) {
    h::QP d = h::randqp(R, R.in(1, 6), cons ? R.in(1, 4) : 0, true);
    P s(d, cons), f(d, cons); Options op = opts(R, true); s.p->setOptions(op); f.p->setOptions(op);
    int_t n = 2000; bool timed = R.one_in(3); double t = 1e6;
    long first = R.in(0, 4);
    h::evalcase(h::fmt("budget %ld timed %d far %d reg %d ramp %d constraints %d ", first, timed, (int)op.enableFarBounds, (int)op.enableRegularisation, (int)op.enableRamping, cons) + h::desc(d));
    if (f.init(n) != SUCCESSFUL_RETURN) return;
    CHECK(n >= 0 && n < 2000, "%d changes", (int)n);
    n = first; returnValue rv = s.init(n, timed ? &t : 0);
    state(s, rv, first, n, false, "init");
    if (timed) CHECK(t >= 0 && t < 100, "time %g", t);
    CHECK(rv == SUCCESSFUL_RETURN || rv == RET_MAX_NWSR_REACHED, "init with %ld changes allowed returns %d", first, (int)rv);
    for (int k = 0; rv != SUCCESSFUL_RETURN && k < 60; ++k) {
        long lim = k > 50 ? 500 : R.in(0, 5); n = lim; t = 1e6; rv = s.hot(n, timed ? &t : 0);
        state(s, rv, lim, n, false, "hotstart");
        CHECK(rv == SUCCESSFUL_RETURN || rv == RET_MAX_NWSR_REACHED, "continued with %ld changes allowed: %d", lim, (int)rv);
    }
    CHECK(rv == SUCCESSFUL_RETURN, "not solved by repeated hotstarts");
    same(s, f, "in small budgets");
}
// time: a limit of zero stops after the first iteration, no limit never stops
static void times(h::Rng& R, bool cons) {
    h::QP d = h::randqp(R, R.in(2, 6), cons ? R.in(1, 4) : 0, true), e = h::randqp(R, d.nV, d.nC, true);
    P s(d, cons), f(d, cons); Options op = opts(R, true); op.enableFarBounds = BT_FALSE; op.enableRegularisation = BT_FALSE; s.p->setOptions(op); f.p->setOptions(op);
    h::evalcase(h::fmt("no time left, constraints %d ", cons) + h::desc(d));
    int_t n = 2000; if (s.init(n) != SUCCESSFUL_RETURN) return;
    s.d.g = e.g; for (auto& z : s.d.g) z *= 5; f.d = s.d;
    n = 2000; if (f.init(n) != SUCCESSFUL_RETURN) return;
    double t = R.coin() ? 0 : 1e-12; n = 2000; returnValue rv = s.hot(n, &t);
    CHECK(rv == SUCCESSFUL_RETURN ? n == 0 : rv == RET_MAX_NWSR_REACHED && n == 1, "without time: return %d after %d changes", (int)rv, (int)n);
    CHECK(t >= 0, "time %g", t);
    state(s, rv, 2000, n, true, "no time");
    n = 2000; t = 1e6; rv = s.hot(n, &t);
    CHECK(rv == SUCCESSFUL_RETURN, "continued with time: %d", (int)rv);
    same(s, f, "after the time limit");
}
static void clockrule(h::Rng& R) {
    QProblemB p(1); double now = getCPUtime(); QUIET();
    double el = R.real(100, 1000), st = now - el, lim = R.real(50, 2500); long n = R.in(-1, 8);
    h::evalcase(h::fmt("elapsed %.6g after %ld changes, limit %.6g", el, n, lim));
    CHECK(p.isCPUtimeLimitExceeded(0, st, n) == BT_FALSE, "stopped without limit");
    if (n <= 0) { CHECK(p.isCPUtimeLimitExceeded(&lim, st, n) == BT_FALSE, "first iteration refused"); return; }
    double need = el + el / n * 1.25; if (std::fabs(need - lim) < 5) return;
    CHECK((p.isCPUtimeLimitExceeded(&lim, st, n) == BT_TRUE) == (need > lim), "needs %.6g", need);
}
static void uninitialised(h::Rng& R, bool cons) {
    h::QP d = h::randqp(R, R.in(1, 4), cons ? R.in(1, 3) : 0, true); P s(d, cons); s.p->setOptions(opts(R, false));
    bool after = R.coin(); h::evalcase(h::fmt("hotstart without init, after reset %d, constraints %d ", after, cons) + h::desc(d));
    int_t n = 2000; double t = 1e3;
    if (after) { if (s.init(n) != SUCCESSFUL_RETURN) return; s.p->reset(); CHECK(s.p->getStatus() == QPS_NOTINITIALISED && s.p->isInitialised() == BT_FALSE && s.p->isSolved() == BT_FALSE, "status %d after reset", (int)s.p->getStatus()); }
    n = 2000; returnValue rv = s.hot(n, R.coin() ? &t : 0);
    CHECK(rv == RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED && s.p->isSolved() == BT_FALSE, "return %d", (int)rv);
}
// printing has no influence
static void printing(h::Rng& R, bool cons) {
    h::QP d = h::randqp(R, R.in(1, 4), cons ? R.in(1, 3) : 0, true);
    int ht = R.in(0, 2); if (ht) for (long i = 0; i < d.nV; ++i) { for (long j = 0; j < d.nV; ++j) d.H[i * d.nV + j] = ht == 2 && i == j; d.lb[i] = std::max(d.lb[i], -9.0 ); d.ub[i] = std::max(d.lb[i], std::min(d.ub[i], 9.0)); }
    P s(d, cons), f(d, cons); Options op = opts(R, true); f.p->setOptions(op);
    static const PrintLevel lv[] = {PL_DEBUG_ITER, PL_TABULAR, PL_LOW, PL_MEDIUM, PL_HIGH}; op.printLevel = lv[R.in(0, 4)];
    h::evalcase(h::fmt("print level %d hessian %d constraints %d ", (int)op.printLevel, ht, cons) + h::desc(d));
    int_t n = 2000; returnValue a, b; if (ht) { f.p->setHessianType(ht == 1 ? HST_ZERO : HST_IDENTITY); s.p->setHessianType(ht == 1 ? HST_ZERO : HST_IDENTITY); }
    auto go = [&](P& z, int_t& m) { const double* H = ht ? 0 : z.d.H.data(); return cons ? z.q->init(H, z.d.g.data(), z.d.A.data(), z.d.lb.data(), z.d.ub.data(), z.d.lbA.data(), z.d.ubA.data(), m) : z.p->init(H, z.d.g.data(), z.d.lb.data(), z.d.ub.data(), m); };
    a = go(f, n); int_t m = 2000;
    { Mute mu; s.p->setOptions(op); b = go(s, m); op.printLevel = PL_NONE; s.p->setOptions(op); }
    QUIET();
    CHECK(a == b && n == m, "results %d %d after %d %d changes", (int)a, (int)b, (int)n, (int)m);
    for (long k = 0; k < d.nV; ++k) CHECK(s.p->x[k] == f.p->x[k], "x[%ld]=%.12g, silent %.12g", k, s.p->x[k], f.p->x[k]);
}
// solution beyond the first far bounds: every variable has to reach a far bound and to leave it again
static void farpasses(h::Rng& R, bool cons) {
    int n = R.in(1, 4); h::QP d = h::randqp(R, n, cons ? 1 : 0, true);
    for (auto& z : d.H) z = 0; for (int i = 0; i < n; ++i) { d.H[i * n + i] = 1e-9; d.g[i] = 0; d.lb[i] = -INFTY; d.ub[i] = INFTY; } for (auto& z : d.A) z = 0; for (int j = 0; j < d.nC; ++j) { d.lbA[j] = -INFTY; d.ubA[j] = INFTY; }
    P s(d, cons); Options op; op.setToReliable(); op.enableRegularisation = BT_FALSE; op.enableFarBounds = BT_TRUE; op.printLevel = PL_NONE; s.p->setOptions(op);
    int_t nw = 500; if (s.init(nw) != SUCCESSFUL_RETURN) return;
    for (auto& z : s.d.g) z = (R.coin() ? 1 : -1) * R.in(2, 9);
    long lim = R.coin() ? 500 : R.in(1, 4 * n); nw = lim; double t = 1e6; bool timed = R.one_in(3);
    h::evalcase(h::fmt("far bounds passed, limit %ld timed %d constraints %d ", lim, timed, cons) + h::desc(s.d));
    returnValue rv = s.hot(nw, timed ? &t : 0);
    state(s, rv, lim, nw, false, "far bounds");
    CHECK(rv == SUCCESSFUL_RETURN || rv == RET_MAX_NWSR_REACHED, "code %d", (int)rv);
    if (rv == SUCCESSFUL_RETURN) { CHECK(nw >= 2 * n, "%d changes reported, %d variables reached a far bound and left it", (int)nw, n); for (int i = 0; i < n; ++i) CHECK(h::close(s.p->x[i], -1e9 * s.d.g[i], 1e-6), "x[%d]=%.12g", i, s.p->x[i]); }
    else CHECK(lim < 500, "not solved within 500 changes");
}
static void run(h::Rng& R) {
    for (long k = 0; k < 400 * g_scale; ++k) { budgets(R, k % 2); times(R, k % 2); clockrule(R); if (k % 2 == 0) { uninitialised(R, k % 4); printing(R, k % 4); farpasses(R, k % 4); } }
}
