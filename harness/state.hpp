// a solver object (with or without constraints) in an arbitrary consistent internal state, and its mirror
#pragma once
#include "qps.hpp"
USING_NAMESPACE_QPOASES
static double val(h::Rng& R) { return R.one_in(4) ? 0 : R.in(-12, 12) / 4.0; }
static std::vector<double> rnd(h::Rng& R, long n) { std::vector<double> v(std::max(1L, n)); for (auto& x : v) x = val(R); return v; }
static const SubjectToType TYPES[] = {ST_BOUNDED, ST_BOUNDED, ST_BOUNDED, ST_BOUNDED, ST_EQUALITY, ST_EQUALITY, ST_UNBOUNDED, ST_DISABLED, ST_UNKNOWN};
static const SubjectToStatus STATS[] = {ST_INACTIVE, ST_LOWER, ST_UPPER};
struct Obj {
    bool cons; long nV, nC;
    QProblemB* p; QProblem* q;
    std::vector<double> x, y, g, lb, ub, lbA, ubA, Ax, Al, Au, H, A;
    std::vector<int> bt, bs, ct, cs;
    ~Obj() { delete p; }
    static std::vector<double> keep(const double* v, long n) { return v ? std::vector<double>(v, v + n) : std::vector<double>(n); }
    void snap() {
        x = keep(p->x, nV); y = keep(p->y, nV + nC); g = keep(p->g, nV); lb = keep(p->lb, nV); ub = keep(p->ub, nV);
        if (cons) { lbA = keep(q->lbA, nC); ubA = keep(q->ubA, nC); Ax = keep(q->Ax, nC); Al = keep(q->Ax_l, nC); Au = keep(q->Ax_u, nC); }
        bt.resize(nV); bs.resize(nV); ct.resize(nC); cs.resize(nC);
        for (long i = 0; i < nV; ++i) { bt[i] = p->bounds.type[i]; bs[i] = p->bounds.status[i]; }
        for (long i = 0; i < nC; ++i) { ct[i] = q->constraints.type[i]; cs[i] = q->constraints.status[i]; }
    }
    double Hx(const double* v, long i) const {
        switch (p->hessianType) { case HST_ZERO: return p->regVal > 1e-25 ? p->regVal * v[i] : 0; case HST_IDENTITY: return v[i]; default: { double s = 0; for (long j = 0; j < nV; ++j) s += H[i * nV + j] * v[j]; return s; } }
    }
    double Aty(const double* yy, long i) const { double s = 0; for (long j = 0; j < nC; ++j) s += A[j * nV + i] * yy[nV + j]; return s; }
    double Arow(const double* v, long j) const { double s = 0; for (long i = 0; i < nV; ++i) s += A[j * nV + i] * v[i]; return s; }
    std::string desc() const {
        return h::fmt("%s nV=%ld nC=%ld hessianType=%d regVal=%g H=%s A=%s x=%s y=%s g=%s lb=%s ub=%s lbA=%s ubA=%s Ax=%s Ax_l=%s Ax_u=%s btype=%s bstatus=%s ctype=%s cstatus=%s", cons ? "QProblem" : "QProblemB", nV, nC, (int)p->hessianType, p->regVal, h::vec(H).c_str(), h::vec(A).c_str(),
            h::vec(x).c_str(), h::vec(y).c_str(), h::vec(g).c_str(), h::vec(lb).c_str(), h::vec(ub).c_str(), h::vec(lbA).c_str(), h::vec(ubA).c_str(), h::vec(Ax).c_str(), h::vec(Al).c_str(), h::vec(Au).c_str(), h::vec(bt).c_str(), h::vec(bs).c_str(), h::vec(ct).c_str(), h::vec(cs).c_str());
    }
    Obj(h::Rng& R, bool c, bool anytype = true, long maxV = 6, long maxC = 5) : cons(c), nV(R.in(1, maxV)), nC(c ? R.in(0, maxC) : 0), p(0), q(0) {
        if (c) p = q = new QProblem(nV, nC); else p = new QProblemB(nV);
        QUIET();
        p->options.printLevel = PL_NONE;
        H = rnd(R, nV * nV); H.resize(nV * nV);
        for (long i = 0; i < nV; ++i) for (long j = 0; j < i; ++j) H[i * nV + j] = H[j * nV + i];
        A = rnd(R, nC * nV); A.resize(nC * nV);
        p->setH(H.data());
        if (c && nC) q->setA(A.data());
        p->hessianType = R.one_in(4) ? HST_ZERO : R.one_in(4) ? HST_IDENTITY : R.coin() ? HST_SEMIDEF : HST_POSDEF;
        p->regVal = R.one_in(2) ? 0 : 0.5;
        p->bounds.init(nV);
        for (long i = 0; i < nV; ++i) { p->bounds.setupBound(i, STATS[R.in(0, 2)]); p->bounds.setType(i, anytype ? TYPES[R.in(0, 8)] : TYPES[R.in(0, 6)]); }
        for (long i = 0; i < nV; ++i) { p->x[i] = val(R); p->g[i] = val(R); p->lb[i] = val(R); p->ub[i] = val(R); }
        for (long i = 0; i < nV + nC; ++i) p->y[i] = val(R);
        if (c) {
            q->constraints.init(nC);
            for (long i = 0; i < nC; ++i) { q->constraints.setupConstraint(i, STATS[R.in(0, 2)]); q->constraints.setType(i, anytype ? TYPES[R.in(0, 8)] : TYPES[R.in(0, 6)]); }
            for (long i = 0; i < nC; ++i) { q->lbA[i] = val(R); q->ubA[i] = val(R); q->Ax[i] = val(R); q->Ax_l[i] = val(R); q->Ax_u[i] = val(R); }
        }
        snap();
    }
    void stationary(const char* what) const {
        for (long i = 0; i < nV; ++i) {
            double w = p->y[i] - Hx(p->x, i) + (cons && nC ? Aty(p->y, i) : 0);
            CHECK(h::close(p->g[i], w, 1e-11), "%s: g[%ld]=%.17g, the stationary gradient is %.17g", what, i, p->g[i], w);
        }
    }
};
