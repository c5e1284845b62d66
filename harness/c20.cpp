// C20: a point returned with success satisfies the optimality conditions of the given QP
#include "qps.hpp"
USING_NAMESPACE_QPOASES
typedef std::vector<double> V;
static double kkt(const h::QP& q, const double* x, const double* y, std::string& why) {
    double worst = 0; int nV = q.nV, nC = q.nC;
    auto up = [&](double v, const char* w, int i) { if (!(v <= worst)) { worst = v; why = h::fmt("%s[%d]", w, i); } };
    for (int i = 0; i < nV; ++i) {
        double s = q.g[i] - y[i]; for (int j = 0; j < nV; ++j) s += q.H[i * nV + j] * x[j]; for (int j = 0; j < nC; ++j) s -= q.A[j * nV + i] * y[nV + j];
        up(std::fabs(s), "stationarity", i); up(q.lb[i] - x[i], "lower bound", i); up(x[i] - q.ub[i], "upper bound", i);
        if (y[i] > 0) up(std::min(y[i], std::fabs(x[i] - q.lb[i])), "complementarity lower bound", i); else up(std::min(-y[i], std::fabs(q.ub[i] - x[i])), "complementarity upper bound", i);
    }
    for (int j = 0; j < nC; ++j) {
        double s = 0; for (int i = 0; i < nV; ++i) s += q.A[j * nV + i] * x[i];
        up(q.lbA[j] - s, "lower constraint", j); up(s - q.ubA[j], "upper constraint", j);
        if (y[nV + j] > 0) up(std::min(y[nV + j], std::fabs(s - q.lbA[j])), "complementarity lower constraint", j); else up(std::min(-y[nV + j], std::fabs(q.ubA[j] - s)), "complementarity upper constraint", j);
    }
    return worst;
}
// sparse copies of the matrices
struct Sparse {
    std::vector<sparse_int_t> hi, hj, ai, aj; V hv, av; SymSparseMat* H; SparseMatrix* A;
    Sparse(const h::QP& q, h::Rng& R) : H(0), A(0) {
        int nV = q.nV, nC = q.nC;
        for (int c = 0; c < nV; ++c) { hj.push_back(hv.size()); for (int r = 0; r < nV; ++r) if (r == c || q.H[r * nV + c] != 0 || R.one_in(5)) { hi.push_back(r); hv.push_back(q.H[r * nV + c]); } } hj.push_back(hv.size());
        for (int c = 0; c < nV; ++c) { aj.push_back(av.size()); for (int r = 0; r < nC; ++r) if (q.A[r * nV + c] != 0 || R.one_in(5)) { ai.push_back(r); av.push_back(q.A[r * nV + c]); } } aj.push_back(av.size());
        hi.push_back(0); ai.push_back(0); hv.push_back(0); av.push_back(0);
        H = new SymSparseMat(nV, nV, hi.data(), hj.data(), hv.data()); H->createDiagInfo(); A = new SparseMatrix(nC, nV, ai.data(), aj.data(), av.data());
    }
    ~Sparse() { delete H; delete A; }
};
static void limits(h::Rng& R, h::QP& q, bool def, bool samekind) {
    int nV = q.nV, nC = q.nC; V x0(nV); for (auto& z : x0) z = h::grid(R, 4);
    auto box = [&](double v, double& l, double& u, bool mb) {
        if (samekind) { bool il = l < -1e19, iu = u > 1e19; if (l == u) l = u = v; else { if (!il) l = v - R.in(0, 4) / 2.0; if (!iu) u = v + R.in(0, 4) / 2.0; } return; }
        switch (R.in(mb ? 2 : 0, 6)) { case 0: l = -INFTY; u = INFTY; break; case 1: if (R.coin()) { l = v - R.in(0, 4) / 2.0; u = INFTY; } else { l = -INFTY; u = v + R.in(0, 4) / 2.0; } break; case 2: l = u = v; break; default: l = v - R.in(0, 6) / 2.0; u = v + R.in(0, 6) / 2.0; } };
    for (int i = 0; i < nV; ++i) box(x0[i], q.lb[i], q.ub[i], !def);
    for (int j = 0; j < nC; ++j) { double s = 0; for (int i = 0; i < nV; ++i) s += q.A[j * nV + i] * x0[i]; box(s, q.lbA[j], q.ubA[j], false); }
}
static const char* CL[] = { "QProblemB", "QProblem", "SQProblem", "QProblem sparse" };
static void one(h::Rng& R, bool toggles) {
    int cls = R.in(0, 3), nV = R.one_in(8) ? R.in(6, 9) : R.in(1, 5), nC = cls == 0 ? 0 : R.in(0, 5); bool def = !R.one_in(3);
    h::QP q = h::randqp(R, nV, nC, def);
    Options o; int preset = R.in(0, 2); if (preset == 0) o.setToDefault(); else if (preset == 1) o.setToReliable(); else o.setToMPC();
    std::string od = preset == 0 ? "default" : preset == 1 ? "reliable" : "MPC";
    auto tog = [&](BooleanType& b, const char* n) { if (R.one_in(4)) { b = b ? BT_FALSE : BT_TRUE; od += h::fmt(" %s=%d", n, (int)b); } };
    if (toggles) {
        tog(o.enableRamping, "ramp"); tog(o.enableFarBounds, "far"); tog(o.enableFlippingBounds, "flip"); tog(o.enableRegularisation, "reg"); tog(o.enableFullLITests, "LI"); tog(o.enableNZCTests, "nzc"); tog(o.enableEqualities, "eq");
        if (R.one_in(4)) { o.enableDriftCorrection = R.in(0, 2); od += h::fmt(" drift=%d", (int)o.enableDriftCorrection); }
        if (R.one_in(4)) { o.enableCholeskyRefactorisation = R.in(0, 2); od += h::fmt(" chol=%d", (int)o.enableCholeskyRefactorisation); }
        if (R.one_in(4)) { o.numRefinementSteps = R.in(0, 2); od += h::fmt(" refine=%d", (int)o.numRefinementSteps); }
    }
    o.printLevel = PL_NONE;
    bool must = def && !toggles && preset != 2;
    QProblem* p = 0; QProblemB* b = 0; Sparse* sp = 0;
    if (cls == 0) b = new QProblemB(nV); else if (cls == 2) b = p = new SQProblem(nV, nC); else b = p = new QProblem(nV, nC);
    QUIET(); b->setOptions(o);
    for (int round = 0; round < 4; ++round) {
        const char* kind = "init"; bool mat = false;
        if (round) {
            mat = cls == 2 && R.coin();
            h::QP n = h::randqp(R, nV, nC, def);
            if (mat) { q = n; kind = "hotstart with new matrices"; }
            else { q.g = n.g; bool sk = R.coin(); limits(R, q, def, sk); kind = sk ? "hotstart" : "hotstart with other kinds of limits"; }
        }
        h::evalcase(h::fmt("%s %s hessian %s round %d %s options %s ", CL[cls], kind, def ? "definite" : "semidefinite", round, nC ? "" : "no constraints", od.c_str()) + h::desc(q));
        int_t nw = 500; returnValue rv;
        const double *g = q.g.data(), *lb = q.lb.data(), *ub = q.ub.data(), *la = q.lbA.data(), *ua = q.ubA.data();
        if (cls == 0) rv = round ? b->hotstart(g, lb, ub, nw) : b->init(q.H.data(), g, lb, ub, nw);
        else if (mat) rv = ((SQProblem*)p)->hotstart(q.H.data(), g, q.A.data(), lb, ub, la, ua, nw);
        else if (round) rv = p->hotstart(g, lb, ub, la, ua, nw);
        else if (cls == 3) { sp = new Sparse(q, R); rv = p->init(sp->H, g, sp->A, lb, ub, la, ua, nw); }
        else rv = p->init(q.H.data(), g, q.A.data(), lb, ub, la, ua, nw);
        if (rv != SUCCESSFUL_RETURN) {
            CHECK(!must, "code %d for a feasible QP with positive definite Hessian", (int)rv);
            break;
        }
        V x(nV), y(nV + nC), xc(nV); b->getPrimalSolution(x.data()); if (p) p->getDualSolution(y.data()); else b->getDualSolution(y.data());
        std::string why; double k = kkt(q, x.data(), y.data(), why);
        CHECK(k < 1e-5, "optimality violated by %g (%s), x=%s y=%s", k, why.c_str(), h::vec(x).c_str(), h::vec(y).c_str());
        double ob = 0; for (int i = 0; i < nV; ++i) { ob += q.g[i] * x[i]; for (int j = 0; j < nV; ++j) ob += 0.5 * x[i] * q.H[i * nV + j] * x[j]; }
        CHECK(h::close(b->getObjVal(), ob, 1e-8), "objective value %.12g instead of %.12g", b->getObjVal(), ob);
        CHECK(b->isSolved() == BT_TRUE && b->isInfeasible() == BT_FALSE && b->isUnbounded() == BT_FALSE, "flags %d %d %d", (int)b->isSolved(), (int)b->isInfeasible(), (int)b->isUnbounded());
        // limits and multipliers of the reported working set match the point
        for (int i = 0; i < nV; ++i) { SubjectToStatus s = b->bounds.getStatus(i);
            CHECK(s != ST_LOWER || std::fabs(x[i] - q.lb[i]) < 1e-5, "variable %d is not at its active lower bound: %.12g", i, x[i]); CHECK(s != ST_UPPER || std::fabs(x[i] - q.ub[i]) < 1e-5, "variable %d is not at its active upper bound: %.12g", i, x[i]);
            CHECK(s != ST_INACTIVE || y[i] == 0.0, "free variable %d has multiplier %g", i, y[i]); }
        for (int j = 0; j < nC; ++j) CHECK(p->constraints.getStatus(j) != ST_INACTIVE || y[nV + j] == 0.0, "inactive constraint %d has multiplier %g", j, y[nV + j]);
    }
    if (cls == 0) delete b; else if (cls == 2) delete (SQProblem*)p; else delete p;
    delete sp;
}
static void run(h::Rng& R) { for (long k = 0; k < 4000 * g_scale; ++k) one(R, k & 1); }
