// C10: problem data setters and queries
#include "state.hpp"
struct Vec { double* v; Vec(const std::vector<double>& a, long n, bool on = true) : v(on ? new double[std::max(0L, n)] : 0) { if (on) for (long i = 0; i < n; ++i) v[i] = a[i]; } ~Vec() { delete[] v; } };
static void samev(const double* p, const std::vector<double>& w, long n, const char* nm) { for (long i = 0; i < n; ++i) CHECK(p[i] == w[i], "%s[%ld]=%.17g, expected %.17g", nm, i, p[i], w[i]); }
// everything the object stores, except what was to be changed
static void unchanged(Obj& o, const std::string& but) {
    auto ok = [&](const char* f) { return but.find(std::string(" ") + f + " ") != std::string::npos; };
    if (!ok("x")) samev(o.p->x, o.x, o.nV, "x"); if (!ok("y")) samev(o.p->y, o.y, o.nV + o.nC, "y"); if (!ok("g")) samev(o.p->g, o.g, o.nV, "g");
    if (!ok("lb")) samev(o.p->lb, o.lb, o.nV, "lb"); if (!ok("ub")) samev(o.p->ub, o.ub, o.nV, "ub");
    if (o.cons) { if (!ok("lbA")) samev(o.q->lbA, o.lbA, o.nC, "lbA"); if (!ok("ubA")) samev(o.q->ubA, o.ubA, o.nC, "ubA"); if (!ok("Ax")) { samev(o.q->Ax, o.Ax, o.nC, "Ax"); samev(o.q->Ax_l, o.Al, o.nC, "Ax_l"); samev(o.q->Ax_u, o.Au, o.nC, "Ax_u"); } }
    for (long i = 0; i < o.nV; ++i) CHECK(o.p->bounds.status[i] == o.bs[i] && o.p->bounds.type[i] == o.bt[i], "bound %ld changed", i);
    for (long i = 0; i < o.nC; ++i) CHECK(o.q->constraints.status[i] == o.cs[i] && (ok("ctype") || o.q->constraints.type[i] == o.ct[i]), "constraint %ld changed", i);
}
static const QProblemStatus STATUS[] = {QPS_NOTINITIALISED, QPS_PREPARINGAUXILIARYQP, QPS_AUXILIARYQPSOLVED, QPS_PERFORMINGHOMOTOPY, QPS_HOMOTOPYQPSOLVED, QPS_SOLVED};
static void setters(h::Rng& R, bool cons) {
    Obj o(R, cons); long nV = o.nV, nC = o.nC;
    auto V = rnd(R, nV), C = rnd(R, nC); bool on = !R.one_in(4);
    Vec v(V, nV, on), c(C, nC, on);
    int what = R.in(0, !cons ? 6 : nC ? 12 : 5); long i = R.in(-2, std::max(nV, nC) + 1); double z = val(R);
    h::evalcase(h::fmt("setter %d index %ld value %g vector %s %s ", what, i, z, on ? h::vec(V).c_str() : "0", on ? h::vec(C).c_str() : "0") + o.desc());
    returnValue rv; std::vector<double> w;
    auto inf = [&](const std::vector<double>& a, double d, long n) { auto r = a; r.resize(std::max(1L, n)); if (!on) for (auto& t : r) t = d; return r; };
    auto one = [&](returnValue r, std::vector<double> old, const double* now, long n, const char* nm) {
        CHECK(r == (i >= 0 && i < n ? SUCCESSFUL_RETURN : RET_INDEX_OUT_OF_BOUNDS), "return value %d", (int)r); if (i >= 0 && i < n) old[i] = z; samev(now, old, n, nm); unchanged(o, std::string(" ") + nm + " "); };
    auto vec = [&](returnValue r, const double* now, const std::vector<double>& want, long n, const char* nm) { CHECK(r == SUCCESSFUL_RETURN, "return value %d", (int)r); samev(now, want, n, nm); unchanged(o, std::string(" ") + nm + " "); };
    switch (what) {
        case 0: rv = o.p->setG(v.v); CHECK(rv == (on ? SUCCESSFUL_RETURN : RET_INVALID_ARGUMENTS), "ret %d", (int)rv); samev(o.p->g, on ? V : o.g, nV, "g"); unchanged(o, " g "); break;
        case 1: vec(o.p->setLB(v.v), o.p->lb, inf(V, -INFTY, nV), nV, "lb"); break;
        case 2: vec(o.p->setUB(v.v), o.p->ub, inf(V, INFTY, nV), nV, "ub"); break;
        case 3: one(o.p->setLB(i, z), o.lb, o.p->lb, nV, "lb"); break;
        case 4: one(o.p->setUB(i, z), o.ub, o.p->ub, nV, "ub"); break;
        case 5: { auto Hn = rnd(R, nV * nV); for (long a = 0; a < nV; ++a) for (long b = 0; b < a; ++b) Hn[a * nV + b] = Hn[b * nV + a]; HessianType ht = o.p->hessianType; bool hn = R.coin();
                  CHECK(o.p->setH(hn ? Hn.data() : 0) == SUCCESSFUL_RETURN, "ret"); unchanged(o, " ");
                  if (!hn) { CHECK(o.p->hessianType == (ht == HST_IDENTITY ? HST_IDENTITY : HST_ZERO), "Hessian type %d after setting none (was %d)", (int)o.p->hessianType, (int)ht); CHECK(ht == HST_IDENTITY || o.p->H == 0, "Hessian kept"); }
                  else { double* f = o.p->H->full(); samev(f, Hn, nV * nV, "H"); delete[] f; CHECK(o.p->hessianType == ht, "Hessian type changed"); o.p->setH((const real_t*)0); } break; }
        case 6: { auto Hn = rnd(R, nV * nV); bool gg = !R.one_in(4), l = R.coin(), u = R.coin(); auto G = rnd(R, nV), Lb = rnd(R, nV), Ub = rnd(R, nV), La = rnd(R, nC), Ua = rnd(R, nC), An = rnd(R, nC * nV); bool hasA = !R.one_in(4);
                  rv = cons ? o.q->setupQPdata(Hn.data(), gg ? G.data() : 0, hasA ? An.data() : 0, l ? Lb.data() : 0, u ? Ub.data() : 0, l ? La.data() : 0, u ? Ua.data() : 0) : o.p->setupQPdata(Hn.data(), gg ? G.data() : 0, l ? Lb.data() : 0, u ? Ub.data() : 0);
                  bool ok = gg && (!cons || nC == 0 || hasA);
                  CHECK((rv == SUCCESSFUL_RETURN) == ok && (ok || rv == RET_INVALID_ARGUMENTS), "setupQPdata returns %d", (int)rv);
                  if (ok) { double* f = o.p->H->full(); samev(f, Hn, nV * nV, "H"); delete[] f; samev(o.p->g, G, nV, "g"); on = l; samev(o.p->lb, inf(Lb, -INFTY, nV), nV, "lb"); if (cons) samev(o.q->lbA, inf(La, -INFTY, nC), nC, "lbA"); on = u; samev(o.p->ub, inf(Ub, INFTY, nV), nV, "ub"); if (cons) samev(o.q->ubA, inf(Ua, INFTY, nC), nC, "ubA");
                            if (cons && nC) { o.A = An; for (long k = 0; k < nC; ++k) { double s = o.Arow(o.p->x, k); CHECK(h::close(o.q->Ax[k], s, 1e-11) && h::close(o.q->Ax_l[k], s - o.q->lbA[k], 1e-11) && h::close(o.q->Ax_u[k], o.q->ubA[k] - s, 1e-11), "product/slack of constraint %ld: %g %g %g", k, o.q->Ax[k], o.q->Ax_l[k], o.q->Ax_u[k]); } }
                            unchanged(o, " g lb ub lbA ubA Ax "); }
                  o.p->setH((const real_t*)0); break; }
        case 7: vec(o.q->setLBA(c.v), o.q->lbA, inf(C, -INFTY, nC), nC, "lbA"); break;
        case 8: vec(o.q->setUBA(c.v), o.q->ubA, inf(C, INFTY, nC), nC, "ubA"); break;
        case 9: one(o.q->setLBA(i, z), o.lbA, o.q->lbA, nC, "lbA"); break;
        case 10: one(o.q->setUBA(i, z), o.ubA, o.q->ubA, nC, "ubA"); break;
        default: { if (!nC) break; bool dense = what == 11; auto An = rnd(R, nC * nV); if (R.coin()) for (long k = 0; k < nV; ++k) An[R.in(0, nC - 1) * 0 + k] = 0;
                   CHECK(o.q->setA((const real_t*)0) == RET_INVALID_ARGUMENTS, "null"); unchanged(o, " ");
                   DenseMatrix M(nC, nV, nV, An.data()); rv = dense ? o.q->setA(An.data()) : o.q->setA(&M); CHECK(rv == SUCCESSFUL_RETURN, "ret"); o.A = An; unchanged(o, " Ax ctype ");
                   double* f = o.q->A->full(); samev(f, An, nC * nV, "A"); delete[] f;
                   for (long k = 0; k < nC; ++k) { double s = o.Arow(o.p->x, k), nrm = 0; for (long j = 0; j < nV; ++j) nrm += std::fabs(An[k * nV + j]);
                       CHECK(h::close(o.q->Ax[k], s, 1e-11) && h::close(o.q->Ax_l[k], s - o.lbA[k], 1e-11) && h::close(o.q->Ax_u[k], o.ubA[k] - s, 1e-11), "product/slack of constraint %ld: %g %g %g", k, o.q->Ax[k], o.q->Ax_l[k], o.q->Ax_u[k]);
                       CHECK(o.q->constraints.type[k] == (!dense && nrm == 0 ? ST_DISABLED : o.ct[k]), "type of constraint %ld is %d", k, (int)o.q->constraints.type[k]); }
                   if (!dense) { o.q->A = 0; o.q->freeConstraintMatrix = BT_FALSE; } break; }
    }
}
static void queries(h::Rng& R, bool cons) {
    Obj o(R, cons); long nV = o.nV, nC = o.nC;
    o.p->status = STATUS[R.in(0, 5)]; o.p->infeasible = R.coin() ? BT_TRUE : BT_FALSE; o.p->unbounded = R.coin() ? BT_TRUE : BT_FALSE;
    bool solved = o.p->status == QPS_AUXILIARYQPSOLVED || o.p->status == QPS_HOMOTOPYQPSOLVED || o.p->status == QPS_SOLVED;
    h::evalcase(h::fmt("queries status %d ", (int)o.p->status) + o.desc());
    std::vector<double> X(nV, 77), Y(nV + nC, 77);
    { Vec x(X, nV), y(Y, nV + nC);
      returnValue a = o.p->getPrimalSolution(x.v), b = o.p->getDualSolution(y.v);
      CHECK(a == (solved ? SUCCESSFUL_RETURN : RET_QP_NOT_SOLVED) && b == a, "solution queries return %d %d", (int)a, (int)b);
      samev(x.v, solved ? o.x : X, nV, "primal solution"); samev(y.v, o.y, nV + nC, "dual solution"); }
    auto P = rnd(R, nV);
    for (int self = 0; self < 2; ++self) {
        const double* v = self ? o.x.data() : P.data(); double w = 0; bool lp = o.p->hessianType == HST_ZERO;
        for (long i = 0; i < nV; ++i) w += v[i] * o.g[i] + (lp ? 0 : 0.5 * v[i] * o.Hx(v, i)) - (!lp && o.p->hessianType != HST_IDENTITY ? 0.5 * o.p->regVal * v[i] * v[i] : 0);
        if (o.p->hessianType == HST_IDENTITY && o.p->regVal > 0) continue;
        double r = self ? o.p->getObjVal() : o.p->getObjVal(v);
        if (self && !solved) w = INFTY;
        CHECK(h::close(r, w, 1e-11), "objective value %.17g, expected %.17g", r, w);
    }
    long fr = 0, up = 0, eq = 0, bo = 0, un = 0, ac = 0, ceq = 0, cb = 0, cu = 0;
    for (long i = 0; i < nV; ++i) { fr += o.bs[i] == ST_INACTIVE; eq += o.bt[i] == ST_EQUALITY; bo += o.bt[i] == ST_BOUNDED; un += o.bt[i] == ST_UNBOUNDED; }
    for (long i = 0; i < nC; ++i) { ac += o.cs[i] != ST_INACTIVE; ceq += o.ct[i] == ST_EQUALITY; cb += o.ct[i] == ST_BOUNDED; cu += o.ct[i] == ST_UNBOUNDED; }
    CHECK(o.p->getNV() == nV && o.p->getNFR() == fr && o.p->getNFX() == nV - fr && o.p->getNFV() == eq && o.p->getNZ() == fr - ac, "counts of bounds %ld %ld %ld %ld", (long)o.p->getNFR(), (long)o.p->getNFX(), (long)o.p->getNFV(), (long)o.p->getNZ());
    CHECK(o.p->bounds.getNBV() == bo && o.p->bounds.getNUV() == un, "bounded %ld, unbounded %ld variables", (long)o.p->bounds.getNBV(), (long)o.p->bounds.getNUV());
    if (cons) { CHECK(o.q->getNC() == nC && o.q->getNAC() == ac && o.q->getNIAC() == nC - ac && o.q->getNEC() == ceq, "counts of constraints"); CHECK(o.q->constraints.getNIC() == cb && o.q->constraints.getNUC() == cu, "counts of constraint types"); }
    CHECK((o.p->isInitialised() == BT_TRUE) == (o.p->status != QPS_NOTINITIALISED) && (o.p->isSolved() == BT_TRUE) == (o.p->status == QPS_SOLVED) && o.p->getStatus() == o.p->status, "status queries");
    CHECK(o.p->isInfeasible() == o.p->infeasible && o.p->isUnbounded() == o.p->unbounded && o.p->getHessianType() == o.p->hessianType, "flags");
    Bounds B; o.p->getBounds(B); for (long i = 0; i < nV; ++i) CHECK(B.getStatus(i) == o.bs[i] && B.getType(i) == o.bt[i], "copied bounds");
    if (cons && nC) { Constraints C; o.q->getConstraints(C); for (long i = 0; i < nC; ++i) CHECK(C.getStatus(i) == o.cs[i] && C.getType(i) == o.ct[i], "copied constraints"); }
    HessianType t = (HessianType)R.in(0, 4); o.p->setHessianType(t); CHECK(o.p->getHessianType() == t, "Hessian type"); o.p->count = 5; CHECK(o.p->getCount() == 5 && o.p->resetCounter() == SUCCESSFUL_RETURN && o.p->getCount() == 0, "counter");
    unchanged(o, " ");
}
static void solvedObj(h::Rng& R) {
    h::QP q = h::randqp(R, R.in(1, 5), R.in(1, 4), R.coin()); bool lp = R.one_in(3);
    QProblem p(q.nV, q.nC); QUIET(); Options op; if (R.coin()) op.setToMPC(); op.printLevel = PL_NONE; op.enableRegularisation = BT_TRUE; op.numRegularisationSteps = R.in(0, 2); op.epsRegularisation = 1e-3; p.setOptions(op);
    if (lp) for (long i = 0; i < q.nV; ++i) { q.lb[i] = std::max(q.lb[i], -50.0); q.ub[i] = std::min(q.ub[i], 50.0); }
    int_t n = 200;
    h::evalcase(h::fmt("objective after a solve, lp=%d steps=%d ", lp, (int)op.numRegularisationSteps) + h::desc(q));
    if (p.init(lp ? 0 : q.H.data(), q.g.data(), q.A.data(), q.lb.data(), q.ub.data(), q.lbA.data(), q.ubA.data(), n) != SUCCESSFUL_RETURN) return;
    std::vector<double> H0 = q.H; double reg = p.regVal; std::vector<double> x(q.nV); p.getPrimalSolution(x.data());
    double w = 0;
    for (long i = 0; i < q.nV; ++i) { w += q.g[i] * x[i]; if (!lp) { double s = 0; for (long j = 0; j < q.nV; ++j) s += q.H[i * q.nV + j] * x[j]; w += 0.5 * x[i] * s - (p.hessianType == HST_IDENTITY || p.hessianType == HST_ZERO ? 0 : 0.5 * reg * x[i] * x[i]); } }
    CHECK(std::fabs(p.getObjVal() - w) < 1e-7 * std::max(1.0, std::fabs(w)), "objective %.12g, expected %.12g (regularisation %g)", p.getObjVal(), w, reg);
}
static void run(h::Rng& R) {
    { QProblem z; QUIET(); double v[1] = {1}; h::evalcase("object without variables"); CHECK(z.setG(v) == RET_QPOBJECT_NOT_SETUP && z.setLB(v) == RET_QPOBJECT_NOT_SETUP && z.setUB(v) == RET_QPOBJECT_NOT_SETUP && z.setLBA(v) == RET_QPOBJECT_NOT_SETUP && z.setUBA(v) == RET_QPOBJECT_NOT_SETUP && z.setA(v) == RET_QPOBJECT_NOT_SETUP && z.setLB(0, 1.0) == RET_QPOBJECT_NOT_SETUP && z.setUB(0, 1.0) == RET_QPOBJECT_NOT_SETUP && z.setLBA(0, 1.0) == RET_QPOBJECT_NOT_SETUP && z.setUBA(0, 1.0) == RET_QPOBJECT_NOT_SETUP && z.getObjVal(v) == 0, "empty object"); }
    for (long k = 0; k < 6000 * g_scale; ++k) { setters(R, false); setters(R, true); queries(R, false); queries(R, true); }
    for (long k = 0; k < 1500 * g_scale; ++k) solvedObj(R);
}
