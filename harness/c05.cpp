// C05: factorisations and triangular solves
#include "qps.hpp"
#include <qpOASES/LapackBlasReplacement.hpp>
USING_NAMESPACE_QPOASES
static const double TOL = 1e-9;
static double nz(h::Rng& R) { double v = R.in(1, 8) / 2.0; return R.coin() ? v : -v; }

static void potrf(h::Rng& R) {
    unsigned long n = R.one_in(12) ? 0 : R.in(1, 7), lda = std::max<unsigned long>(1, n + (R.coin() ? R.in(1, 3) : 0));
    std::vector<double> M(n * n), a(lda * std::max<unsigned long>(n, 1), 0.0);
    unsigned long m = R.one_in(4) && n ? R.in(0, n - 1) : n;
    std::vector<double> L(m * n);
    for (auto& x : L) x = h::grid(R, 4);
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { double s = 0; for (unsigned k = 0; k < m; ++k) s += L[k * n + i] * L[k * n + j]; M[i * n + j] = s; }
    if (m == n) for (unsigned i = 0; i < n; ++i) M[i * n + i] += R.one_in(3) ? 0.25 : 1;
    bool bad = m < n || (n && R.one_in(4));
    if (m == n && bad) { unsigned k = R.in(0, n - 1); M[k * n + k] = R.coin() ? 0 : -1.5; }
    else if (m < n) { unsigned k = R.in(0, n - 1); M[k * n + k] -= 0.5; }
    for (auto& x : a) x = R.in(-900, 900);
    for (unsigned i = 0; i < n; ++i) for (unsigned j = i; j < n; ++j) a[i + lda * j] = M[i * n + j];
    std::vector<double> a0 = a;
    h::evalcase(h::fmt("dpotrf_ n=%lu lda=%lu A=%s", n, lda, h::vec(M).c_str()));
    long info = -7;
    bool noinfo = R.one_in(8);
    dpotrf_("U", &n, a.data(), &lda, noinfo ? 0 : &info);
    if (noinfo) { if (bad) return; info = 0; }
    if (m == n && !bad) CHECK(info == 0, "positive definite matrix refused, info %ld", info);
    if (bad) CHECK(info > 0 && info <= (long)n && a[0] <= 0, "indefinite matrix accepted: info %ld a0 %g", info, a[0]);
    if (info == 0) {
        for (unsigned i = 0; i < n; ++i) {
            CHECK(a[i + lda * i] > 0, "diagonal");
            for (unsigned j = i; j < n; ++j) { double s = 0; for (unsigned k = 0; k <= i; ++k) s += a[k + lda * i] * a[k + lda * j]; CHECK(h::close(s, M[i * n + j], TOL), "U'U(%u,%u)=%.17g", i, j, s); }
        }
        for (unsigned j = 0; j < n; ++j) for (unsigned i = 0; i < lda; ++i) if (i > j) CHECK(a[i + lda * j] == a0[i + lda * j], "entry below the diagonal changed");
    }
}
static void solves(h::Rng& R) {
    long nV = R.in(1, 7), nC = R.in(1, 7);
    bool cons = R.coin();
    QProblem qp(nV, nC); QProblemB qb(nV);
    QProblemB* p = cons ? (QProblemB*)&qp : &qb;
    QUIET(); p->bounds.init(nV);
    long nFX = R.in(0, nV), nFR = nV - nFX;
    for (long i = 0; i < nV; ++i) p->bounds.setupBound(i, i < nFX ? ST_LOWER : ST_INACTIVE);
    long nAC = 0;
    if (cons) { qp.constraints.init(nC); nAC = R.in(0, std::min(nFR, nC)); for (long i = 0; i < nC; ++i) qp.constraints.setupConstraint(i, i < nAC ? ST_UPPER : ST_INACTIVE); }
    long nZ = nFR - nAC;
    std::vector<double> U(nV * nV);
    if (!p->R) p->R = new real_t[nV * nV];
    for (auto& x : U) x = R.one_in(4) ? 0 : nz(R);
    for (long i = 0; i < nV; ++i) U[i + nV * i] = nz(R);
    long sing = R.one_in(4) ? R.in(0, nV - 1) : -1;
    if (sing >= 0) U[sing + nV * sing] = 0;
    for (long i = 0; i < nV * nV; ++i) p->R[i] = U[i];
    bool rem = R.one_in(3), tr = R.coin(), inpl = R.coin(), two = !rem && R.coin();
    long n = rem ? nZ - 1 : nZ;
    if (n >= 0) {
        std::vector<double> b(nV), a(nV), a0;
        for (auto& x : b) x = R.one_in(3) ? 0 : nz(R);
        for (auto& x : a) x = nz(R);
        if (inpl) a = b;
        a0 = a;
        h::evalcase(h::fmt("backsolveR constrained %d n=%ld nV=%ld trans %d removing %d inplace %d R=%s b=%s", cons, n, nV, tr, rem, inpl, h::vec(U).c_str(), h::vec(b).c_str()));
        returnValue rv = two ? p->backsolveR(inpl ? a.data() : b.data(), tr ? BT_TRUE : BT_FALSE, a.data()) : p->backsolveR(inpl ? a.data() : b.data(), tr ? BT_TRUE : BT_FALSE, rem ? BT_TRUE : BT_FALSE, a.data());
        if (sing >= 0 && sing < n) CHECK(rv != SUCCESSFUL_RETURN, "singular factor not reported");
        else {
            CHECK(rv == SUCCESSFUL_RETURN, "code %d", rv);
            for (long i = 0; i < n; ++i) {
                double s = 0, sc = 1;
                for (long k = 0; k < n; ++k) { double u = tr ? (k <= i ? U[k + nV * i] : 0) : (k >= i ? U[i + nV * k] : 0); s += u * a[k]; sc += std::fabs(u * a[k]); }
                CHECK(std::fabs(s - b[i]) <= 1e-9 * sc, "equation %ld: %.17g", i, s);
            }
        }
        for (long i = n; i < nV; ++i) CHECK(a[i] == a0[i], "entry %ld beyond the system changed", i);
        for (long i = 0; i < nV * nV; ++i) CHECK(p->R[i] == U[i], "factor changed");
    }
    if (cons) {
        long s = qp.sizeT; std::vector<double> T(s * s);
        for (auto& x : T) x = R.one_in(4) ? 0 : nz(R);
        long tc = s - nAC;
        for (long i = 0; i < nAC; ++i) T[i * s + tc + nAC - 1 - i] = nz(R);
        long sg = R.one_in(4) && nAC ? R.in(0, nAC - 1) : -1;
        if (sg >= 0) T[sg * s + tc + nAC - 1 - sg] = 0;
        for (long i = 0; i < s * s; ++i) qp.T[i] = T[i];
        std::vector<double> b(nC), a(nC), a0;
        for (auto& x : b) x = R.one_in(3) ? 0 : nz(R);
        for (auto& x : a) x = nz(R);
        a0 = a;
        h::evalcase(h::fmt("backsolveT nAC=%ld sizeT=%ld trans %d T=%s b=%s", nAC, s, tr, h::vec(T).c_str(), h::vec(b).c_str()));
        returnValue rv = qp.backsolveT(b.data(), tr ? BT_TRUE : BT_FALSE, a.data());
        if (sg >= 0) { if (rv == SUCCESSFUL_RETURN) for (long i = 0; i < nAC; ++i) CHECK(std::isfinite(a[i]), "not finite"); }
        else CHECK(rv == SUCCESSFUL_RETURN, "code %d", rv);
        // equations are solved in the order of the loops: row i of T (or its column tcol+i) against b[i]
        if (rv == SUCCESSFUL_RETURN && sg < 0) for (long i = 0; i < nAC; ++i) {
            double v = 0, sc = 1;
            for (long k = 0; k < nAC; ++k) { bool in = tr ? (k >= nAC - 1 - i) : (k >= nAC - 1 - i); if (!in) continue; double t = tr ? T[k * s + tc + i] : T[i * s + tc + k]; v += t * a[k]; sc += std::fabs(t * a[k]); }
            CHECK(std::fabs(v - b[i]) <= 1e-9 * sc, "equation %ld: %.17g instead of %.17g", i, v, b[i]);
        }
        for (long i = nAC; i < nC; ++i) CHECK(a[i] == a0[i], "entry beyond the system changed");
    }
}
static void rotations(h::Rng& R) {
    QProblemB q(1); QUIET();
    double x = R.one_in(6) ? 0 : h::grid(R, 9), y = R.one_in(6) ? 0 : R.one_in(6) ? std::pow(10.0, -R.in(10, 23)) : h::grid(R, 9), xn = 77, yn = 77, c = 77, s = 77;
    if (R.one_in(5)) x *= 1e-9;
    h::evalcase(h::fmt("computeGivens x=%.17g y=%.17g", x, y));
    bool al = R.coin();
    if (al) { xn = x; yn = y; q.computeGivens(xn, yn, xn, yn, c, s); } else q.computeGivens(x, y, xn, yn, c, s);
    double r = std::hypot(x, y);
    CHECK(h::close(c * c + s * s, 1, 1e-12), "c=%g s=%g", c, s);
    CHECK(yn == 0 || std::fabs(y) <= 1e-25, "second component %g", yn);
    CHECK(std::fabs(std::fabs(xn) - r) <= 1e-12 * (1 + r) && xn * x >= 0, "first component %g", xn);
    CHECK(std::fabs(c * x + s * y - xn) <= 1e-12 * (1 + r) && std::fabs(c * y - s * x) <= 1e-12 * (1 + r), "not a rotation of (x,y)");
    double u = h::grid(R, 9), v = h::grid(R, 9), un, vn;
    if (R.coin()) { un = u; vn = v; q.applyGivens(c, s, s / (1 + c), un, vn, un, vn); } else q.applyGivens(c, s, s / (1 + c), u, v, un, vn);
    CHECK(h::close(un, c * u + s * v, 1e-12) && h::close(vn, c * v - s * u, 1e-12), "applyGivens(%g,%g,%g,%g) = %g %g", c, s, u, v, un, vn);
}
static void cholesky(h::Rng& R) {
    long nV = R.in(1, 6);
    h::QP q = h::randqp(R, nV, 0, true);
    std::vector<double> M = q.H;
    bool indef = R.one_in(4);
    if (indef) { long k = R.in(0, nV - 1); M[k * nV + k] = -1; }
    QProblemB p(nV); p.setPrintLevel(PL_NONE); QUIET();
    p.bounds.init(nV);
    long t = R.in(0, 3);
    std::vector<long> fr; std::vector<long> ord(nV);
    for (long i = 0; i < nV; ++i) ord[i] = i;
    for (long i = nV - 1; i > 0; --i) std::swap(ord[i], ord[R.in(0, i)]);
    for (long i : ord) { bool f = R.coin(); p.bounds.setupBound(i, f ? ST_INACTIVE : ST_LOWER); if (f) fr.push_back(i); }
    if (!p.R) p.R = new real_t[nV * nV];
    for (long i = 0; i < nV * nV; ++i) p.R[i] = nz(R);
    std::vector<double> Mc = M;
    SymDenseMat H(nV, nV, nV, Mc.data());
    p.H = &H; p.freeHessian = BT_FALSE;
    p.hessianType = t == 0 ? HST_ZERO : t == 1 ? HST_IDENTITY : R.coin() ? HST_POSDEF : HST_UNKNOWN;
    p.regVal = R.coin() ? 0.25 : 0;
    HessianType ht = p.hessianType;
    h::evalcase(h::fmt("computeCholesky nV=%ld type %d regVal %g free %s H=%s", nV, ht, p.regVal, h::vec(fr).c_str(), h::vec(M).c_str()));
    returnValue rv = p.computeCholesky();
    std::vector<double> Rr(p.R, p.R + nV * nV);
    bool neg = false;
    for (long i : fr) if (M[i * nV + i] < 0) neg = true;
    if (t == 0) {
        if (p.regVal == 0) CHECK(rv == RET_CHOLESKY_OF_ZERO_HESSIAN, "code %d", rv);
        else { CHECK(rv == SUCCESSFUL_RETURN, "code %d", rv); for (long i = 0; i < nV * nV; ++i) CHECK(Rr[i] == (i % (nV + 1) ? 0 : 0.5), "R[%ld]=%g", i, Rr[i]); }
    } else if (t == 1) { CHECK(rv == SUCCESSFUL_RETURN, "code %d", rv); for (long i = 0; i < nV * nV; ++i) CHECK(Rr[i] == (i % (nV + 1) ? 0 : 1), "R[%ld]=%g", i, Rr[i]); }
    else if (neg) { CHECK(rv == RET_HESSIAN_NOT_SPD && p.hessianType == HST_SEMIDEF, "code %d", rv); }
    else {
        CHECK(rv == SUCCESSFUL_RETURN && p.hessianType == ht, "code %d", rv);
        for (size_t i = 0; i < fr.size(); ++i) {
            CHECK(Rr[i + nV * i] > 0, "diagonal");
            for (size_t j = i; j < fr.size(); ++j) { double s = 0; for (size_t k = 0; k <= i; ++k) s += Rr[k + nV * i] * Rr[k + nV * j]; CHECK(h::close(s, M[fr[i] * nV + fr[j]], TOL), "R'R(%zu,%zu)=%.17g", i, j, s); }
            if (i + 1 < fr.size()) CHECK(Rr[i + 1 + nV * i] == 0, "subdiagonal");
        }
    }
    for (long i = 0; i < nV * nV; ++i) CHECK(Mc[i] == M[i], "Hessian changed");
    p.H = 0;
}
static void tq(h::Rng& R) {
    long nV = R.in(1, 5), nC = R.in(1, 5);
    h::QP q = h::randqp(R, nV, nC, true);
    QProblem p(nV, nC); p.setPrintLevel(PL_NONE); QUIET();
    p.bounds.init(nV);
    for (long i = nV - 1; i >= 0; --i) p.bounds.setupBound(i, R.coin() ? ST_INACTIVE : ST_UPPER);
    for (long i = 0; i < nV * nV; ++i) p.Q[i] = nz(R);
    for (long i = 0; i < p.sizeT * p.sizeT; ++i) p.T[i] = nz(R);
    h::evalcase(h::fmt("setupTQfactorisation nV=%ld nC=%ld nFR=%ld", nV, nC, (long)p.getNFR()));
    CHECK(p.setupTQfactorisation() == SUCCESSFUL_RETURN, "code");
    long* F; p.bounds.getFree()->getNumberArray(&F);
    for (long i = 0; i < nV; ++i) for (long j = 0; j < nV; ++j) CHECK(p.Q[i + nV * j] == (j < p.getNFR() && F[j] == i ? 1 : 0), "Q(%ld,%ld)", i, j);
    for (long i = 0; i < p.sizeT * p.sizeT; ++i) CHECK(p.T[i] == 0, "T");
}
static void run(h::Rng& R) {
    QUIET();
    long N = 1500 * g_scale;
    for (long t = 0; t < N; ++t) { potrf(R); solves(R); rotations(R); cholesky(R); if (t % 4 == 0) tq(R); }
}
