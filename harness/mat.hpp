// matrices against a plain reference in extended precision
#pragma once
#include "h.hpp"
using namespace qpOASES;
typedef long double LD;
struct Ref { long m, n; std::vector<double> a; double at(long i, long j) const { return a[i * n + j]; } };
static const double SENT = -7777.25;

static double entry(h::Rng& R, bool wide) {
    if (R.one_in(3)) return 0.0;
    if (wide && R.one_in(12)) return R.coin() ? 1e-13 * R.in(1, 9) : 1e7 * R.in(1, 9);
    return R.in(-8, 8) / 2.0;
}
static double coeff(h::Rng& R) {
    static const double c[] = {1, -1, 0, 1, -1, 0, 0.5, 2, -3, -0.25, 1 + 1.0 / (1l << 40), -1 - 1.0 / (1l << 40), 1.0 / (1l << 45), -2};
    return c[R.in(0, 13)];
}
static Ref randref(h::Rng& R, long m, long n, bool sym, bool wide) {
    Ref r; r.m = m; r.n = n; r.a.resize(m * n);
    int kind = R.in(0, 9);
    for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) r.a[i * n + j] = kind == 0 && i != j ? 0 : kind == 1 ? (R.one_in(5) ? entry(R, wide) : 0) : entry(R, wide);
    if (kind == 2 && m == n) { for (auto& v : r.a) v = 0; for (long i = 0; i < n; ++i) r.a[i * n + i] = R.in(-4, 4); if (n > 1 && R.coin()) { long i = R.in(1, n - 1), j = R.in(0, i - 1); if (R.coin()) std::swap(i, j); r.a[i * n + j] = 1; } }
    if (sym) for (long i = 0; i < m; ++i) for (long j = 0; j < i; ++j) r.a[j * n + i] = r.a[i * n + j];
    return r;
}
// a list of distinct numbers of [0,n) in random order, built with removals and swaps
static Indexlist* randlist(h::Rng& R, long n, std::vector<long>& v, bool nonempty) {
    std::vector<long> p(n); for (long i = 0; i < n; ++i) p[i] = i;
    for (long i = n - 1; i > 0; --i) std::swap(p[i], p[R.in(0, i)]);
    long k = R.one_in(4) ? n : R.in(nonempty && n ? 1 : 0, n);
    if (R.one_in(3)) std::sort(p.begin(), p.end());
    Indexlist* L = new Indexlist(n > 0 ? n : 1);
    v.clear();
    for (long i = 0; i < k; ++i) { L->addNumber(p[i]); v.push_back(p[i]); }
    if (k > 2 && R.one_in(4)) { long x = v[R.in(0, k - 1)]; L->removeNumber(x); v.erase(std::find(v.begin(), v.end(), x)); }
    if (v.size() > 1 && R.one_in(4)) { long i = R.in(0, v.size() - 1), j = R.in(0, v.size() - 1); if (i != j) { L->swapNumbers(v[i], v[j]); std::swap(v[i], v[j]); } }
    return L;
}
static void eq(double got, LD ref, LD mag, const char* what, long i, long k) {
    LD tol = 1e-14L * mag + 1e-24L;
    CHECK(std::fabs((double)(got - ref)) <= (double)tol, "%s[%ld,%ld] = %.17g expected %.17g", what, i, k, got, (double)ref);
}
struct Opt { bool sym, sparse, row, diaginfo; };

static void checkmat(Matrix* M, const Ref& r, h::Rng& R, const Opt& o, const char* what) {
    long m = r.m, n = r.n;
    // queries
    { real_t* f = M->full(); for (long i = 0; i < m * n; ++i) CHECK(f[i] == r.a[i], "%s full[%ld]=%g expected %g", what, i, f[i], r.a[i]); delete[] f; }
    for (long i = 0; i < std::min(m, n); ++i) { double d = M->diag(i); CHECK(d == r.at(i, i), "%s diag(%ld)=%g expected %g", what, i, d, r.at(i, i)); }
    if (m == n || !o.sparse) {
        bool dg = m == n;
        for (long i = 0; i < m && dg; ++i) for (long j = 0; j < n; ++j) if (i != j && std::fabs(r.at(i, j)) > EPS) { dg = false; break; }
        BooleanType b = M->isDiag();
        CHECK((b == BT_TRUE) == dg, "%s isDiag %d expected %d", what, (int)b, (int)dg);
    } else CHECK(M->isDiag() == BT_FALSE, "%s isDiag of a non-square matrix", what);
    LD s1 = 0, s2 = 0;
    std::vector<LD> r1(m), r2(m);
    for (long i = 0; i < m; ++i) { for (long j = 0; j < n; ++j) { LD v = r.at(i, j); r1[i] += std::fabs((double)v); r2[i] += v * v; } s1 += r1[i]; s2 += r2[i]; }
    eq(M->getNorm(1), s1, s1, "getNorm(1)", 0, 0); eq(M->getNorm(2), sqrtl(s2), sqrtl(s2), "getNorm(2)", 0, 0);
    CHECK(M->getNorm(3) < 0, "getNorm(3)");
    if (n > 0) for (long i = 0; i < m; ++i) { eq(M->getRowNorm(i, 1), r1[i], r1[i], "getRowNorm(.,1)", i, 0); eq(M->getRowNorm(i, 2), sqrtl(r2[i]), sqrtl(r2[i]), "getRowNorm(.,2)", i, 0); }
    if (n > 0) for (int t = 1; t <= 2; ++t) {
        std::vector<double> nr(m + 1, SENT);
        CHECK(M->getRowNorm(nr.data(), t) == SUCCESSFUL_RETURN, "getRowNorm code");
        for (long i = 0; i < m; ++i) eq(nr[i], t == 1 ? r1[i] : sqrtl(r2[i]), t == 1 ? r1[i] : sqrtl(r2[i]), "getRowNorm[]", i, t);
        CHECK(nr[m] == SENT, "getRowNorm wrote past the end");
    }
    // rows and columns
    for (int it = 0; it < 3; ++it) {
        std::vector<long> v; double al = coeff(R);
        if (m > 0) {
            long i = R.in(0, m - 1);
            bool all = R.one_in(3);
            Indexlist* L = randlist(R, n, v, false);
            if (all) { v.resize(n); for (long j = 0; j < n; ++j) v[j] = j; }
            std::vector<double> row(v.size() + 1, SENT);
            CHECK(M->getRow(i, all ? 0 : L, al, row.data()) == SUCCESSFUL_RETURN, "getRow");
            for (size_t j = 0; j < v.size(); ++j) CHECK(row[j] == al * r.at(i, v[j]), "%s getRow(%ld, %s, %g)[%zu]=%g expected %g", what, i, all ? "all" : h::vec(v).c_str(), al, j, row[j], al * r.at(i, v[j]));
            CHECK(row[v.size()] == SENT, "getRow wrote past the end");
            delete L;
        }
        if (n > 0) {
            long j = R.in(0, n - 1);
            bool all = o.row && R.one_in(3);
            Indexlist* L = randlist(R, m, v, false);
            if (all) { v.resize(m); for (long i = 0; i < m; ++i) v[i] = i; }
            std::vector<double> col(v.size() + 1, SENT);
            CHECK(M->getCol(j, all ? 0 : L, al, col.data()) == SUCCESSFUL_RETURN, "getCol");
            for (size_t i = 0; i < v.size(); ++i) CHECK(col[i] == al * r.at(v[i], j), "%s getCol(%ld, %s, %g)[%zu]=%g expected %g", what, j, h::vec(v).c_str(), al, i, col[i], al * r.at(v[i], j));
            CHECK(col[v.size()] == SENT, "getCol wrote past the end");
            delete L;
        }
    }
    // products
    for (int it = 0; it < 8; ++it) {
        bool tr = R.coin(), list = R.coin(), comp = !R.one_in(3) || tr, all = list && !tr && R.one_in(3);
        std::vector<long> vr, vc;
        Indexlist *Lr = randlist(R, m, vr, false), *Lc = randlist(R, n, vc, false);
        if (!list) { vr.resize(m); for (long i = 0; i < m; ++i) vr[i] = i; comp = true; }
        if (!list || all) { vc.resize(n); for (long i = 0; i < n; ++i) vc[i] = i; }
        long xN = R.one_in(8) ? 0 : R.one_in(3) ? R.in(2, 4) : 1;
        long kx = tr ? vr.size() : vc.size(), ky = tr ? vc.size() : comp ? vr.size() : m;
        long xLD = std::max(1l, kx + (R.one_in(3) ? R.in(1, 3) : 0)), yLD = std::max(1l, ky + (R.one_in(3) ? R.in(1, 3) : 0));
        double al = coeff(R), be = coeff(R);
        std::vector<double> x(xLD * std::max(1l, xN), SENT), y(yLD * std::max(1l, xN) + 1, SENT);
        for (auto& t : x) t = R.one_in(5) ? 0 : R.in(-6, 6) / 2.0;
        for (auto& t : y) t = R.in(-6, 6) / 2.0;
        if (R.one_in(10)) for (auto& t : y) t = 0;
        std::vector<double> y0 = y;
        std::string d = h::fmt("%s M(%ldx%ld)=%s %s%s rows=%s cols=%s xN=%ld alpha=%.17g beta=%.17g xLD=%ld yLD=%ld compressed=%d x=%s y=%s", what, m, n, h::vec(r.a).c_str(), tr ? "transTimes" : "times", list ? "(lists)" : "",
                               h::vec(vr).c_str(), all ? "null" : h::vec(vc).c_str(), xN, al, be, xLD, yLD, (int)comp, h::vec(x).c_str(), h::vec(y0).c_str());
        h::evalcase(d, xN > 0);
        returnValue rv;
        if (!list) rv = tr ? M->transTimes(xN, al, x.data(), xLD, be, y.data(), yLD) : M->times(xN, al, x.data(), xLD, be, y.data(), yLD);
        else if (tr) rv = M->transTimes(Lr, Lc, xN, al, x.data(), xLD, be, y.data(), yLD);
        else if (comp && R.coin()) rv = M->times(Lr, all ? 0 : Lc, xN, al, x.data(), xLD, be, y.data(), yLD);
        else rv = M->times(Lr, all ? 0 : Lc, xN, al, x.data(), xLD, be, y.data(), yLD, comp ? BT_TRUE : BT_FALSE);
        CHECK(rv == SUCCESSFUL_RETURN, "code %d", (int)rv);
        std::vector<char> touched(y.size(), 0);
        for (long k = 0; k < xN; ++k) for (long q = 0; q < (long)(tr ? vc.size() : vr.size()); ++q) {
            LD s = 0, mag = 0;
            long p = tr ? q + k * yLD : (comp ? q : vr[q]) + k * yLD;
            for (long t = 0; t < kx; ++t) { LD e = tr ? r.at(vr[t], vc[q]) : r.at(vr[q], vc[t]); LD z = (LD)al * e * x[t + k * xLD]; s += z; mag += fabsl(z); }
            s += (LD)be * y0[p]; mag += fabsl((LD)be * y0[p]);
            eq(y[p], s, mag, "y", q, k);
            touched[p] = 1;
        }
        for (size_t p = 0; p < y.size(); ++p) if (!touched[p]) CHECK(y[p] == y0[p], "y[%zu] changed from %g to %g although it does not belong to the product", p, y0[p], y[p]);
        delete Lr; delete Lc;
    }
    // submatrix in triplet form
    if (!o.row && m > 0 && n > 0) for (int it = 0; it < 3; ++it) {
        std::vector<long> vr, vc;
        bool tri = o.sym && R.coin();
        Indexlist *Lr = randlist(R, m, vr, true), *Lc = tri ? 0 : randlist(R, n, vc, true);
        if (tri) { Lc = new Indexlist(*Lr); vc = vr; }
        int form = tri ? R.in(0, 1) : R.in(0, 3);
        long ir = vr[R.in(0, vr.size() - 1)], ic = vc[R.in(0, vc.size() - 1)];
        if (form == 2) { vc.assign(1, ic); }
        if (form == 3) { vr.assign(1, ir); }
        std::vector<int_t> ar(vr.begin(), vr.end()), ac(vc.begin(), vc.end());
        int_t nz = -5, nz2 = -5; long ro = R.in(-2, 5), co = R.in(-2, 5);
        std::vector<int_t> irn(vr.size() * vc.size() + 1, -99), jcn(vr.size() * vc.size() + 1, -99); std::vector<double> av(vr.size() * vc.size() + 1, SENT);
        BooleanType T = tri ? BT_TRUE : BT_FALSE;
        auto call = [&](int_t& z, int_t* a, int_t* b, double* v) {
            switch (form) {
                case 0: return M->getSparseSubmatrix(Lr, Lc, ro, co, z, a, b, v, T);
                case 1: return M->getSparseSubmatrix((int_t)ar.size(), ar.data(), (int_t)ac.size(), ac.data(), ro, co, z, a, b, v, T);
                case 2: return M->getSparseSubmatrix(Lr, (int_t)ic, ro, co, z, a, b, v, T);
                default: return M->getSparseSubmatrix((int_t)ir, Lc, ro, co, z, a, b, v, T);
            }
        };
        h::evalcase(h::fmt("%s M(%ldx%ld)=%s getSparseSubmatrix form %d rows=%s cols=%s offsets %ld %ld lower=%d", what, m, n, h::vec(r.a).c_str(), form, h::vec(vr).c_str(), h::vec(vc).c_str(), ro, co, (int)tri));
        CHECK(call(nz, 0, 0, 0) == SUCCESSFUL_RETURN, "count code");
        CHECK(call(nz2, irn.data(), jcn.data(), av.data()) == SUCCESSFUL_RETURN, "code");
        CHECK(nz == nz2 && nz >= 0 && nz < (int_t)irn.size(), "counts %ld %ld", (long)nz, (long)nz2);
        CHECK(call(nz2, 0, jcn.data(), 0) == RET_INVALID_ARGUMENTS, "missing row array accepted");
        std::map<std::pair<long, long>, double> got;
        for (long t = 0; t < nz; ++t) {
            std::pair<long, long> k(irn[t] - ro, jcn[t] - co);
            CHECK(k.first >= 0 && k.first < (long)vr.size() && k.second >= 0 && k.second < (long)vc.size() && (!tri || k.first >= k.second), "entry %ld at (%ld,%ld)", t, k.first, k.second);
            CHECK(!got.count(k), "entry (%ld,%ld) listed twice", k.first, k.second);
            got[k] = av[t];
        }
        CHECK(irn[nz] == -99 && jcn[nz] == -99 && av[nz] == SENT, "wrote past the reported number of entries");
        for (long i = 0; i < (long)vr.size(); ++i) for (long j = 0; j < (long)vc.size(); ++j) if (!tri || i >= j) {
            double e = r.at(vr[i], vc[j]); auto f = got.find(std::make_pair(i, j));
            CHECK(f == got.end() ? e == 0 : f->second == e, "entry (%ld,%ld): %g expected %g", i, j, f == got.end() ? 0.0 : f->second, e);
            if (e == 0 && !o.sparse) CHECK(f == got.end(), "zero entry listed");
        }
        delete Lr; delete Lc;
    }
    // bilinear form
    if (o.sym) for (int it = 0; it < 2; ++it) {
        std::vector<long> v; Indexlist* L = randlist(R, n, v, false);
        long xN = R.in(0, 4), xLD = std::max(1l, n + (R.one_in(3) ? 2 : 0)), yLD = std::max(1l, xN + (R.one_in(3) ? R.in(1, 2) : 0));
        std::vector<double> x(xLD * std::max(1l, xN)), y(yLD * std::max(1l, xN) + 1, SENT);
        for (auto& t : x) t = R.one_in(5) ? 0 : R.in(-6, 6) / 2.0;
        h::evalcase(h::fmt("%s M(%ldx%ld)=%s bilinear cols=%s xN=%ld xLD=%ld yLD=%ld x=%s", what, m, n, h::vec(r.a).c_str(), h::vec(v).c_str(), xN, xLD, yLD, h::vec(x).c_str()), xN > 0);
        CHECK(dynamic_cast<SymmetricMatrix*>(M)->bilinear(L, xN, x.data(), xLD, y.data(), yLD) == SUCCESSFUL_RETURN, "bilinear code");
        std::vector<char> touched(y.size(), 0);
        for (long i = 0; i < xN; ++i) for (long j = 0; j < xN; ++j) {
            LD s = 0, mag = 0;
            for (long a : v) for (long b : v) { LD z = (LD)x[a + i * xLD] * r.at(a, b) * x[b + j * xLD]; s += z; mag += fabsl(z); }
            eq(y[i * yLD + j], s, mag, "bilinear", i, j); touched[i * yLD + j] = 1;
        }
        for (size_t p = 0; p < y.size(); ++p) if (!touched[p]) CHECK(y[p] == SENT, "bilinear changed y[%zu]", p);
        delete L;
    }
}
