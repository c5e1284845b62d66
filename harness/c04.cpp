// C04: sparse matrices (column and row storage, symmetric) represent the same linear maps as their dense counterparts
#include "mat.hpp"
struct Sp { std::vector<sparse_int_t> start, idx; std::vector<double> val; };
// compressed storage of r by columns (or rows); explicit zeros now and then; missing diagonal entries possible
static Sp pack(h::Rng& R, const Ref& r, bool rows, int zeros) {
    Sp s; long o = rows ? r.m : r.n, in = rows ? r.n : r.m;
    for (long a = 0; a < o; ++a) {
        s.start.push_back(s.val.size());
        for (long b = 0; b < in; ++b) { double v = rows ? r.at(a, b) : r.at(b, a); if (v != 0 || (zeros == 1 && R.one_in(4)) || (zeros == 2 && a == b)) { s.idx.push_back(b); s.val.push_back(v); } }
    }
    s.start.push_back(s.val.size());
    if (s.idx.empty()) { s.idx.push_back(0); s.val.push_back(0); }
    return s;
}
template <class X> X* dup(const std::vector<X>& v) { X* p = new X[v.size()]; std::copy(v.begin(), v.end(), p); return p; }
static void run(h::Rng& R) {
    QUIET();
    long N = 500 * g_scale;
    for (long t = 0; t < N; ++t) {
        int cls = R.in(0, 2);                       // 0 SparseMatrix 1 SparseMatrixRow 2 SymSparseMat
        bool sym = cls == 2;
        long m = R.one_in(15) ? 0 : R.in(1, 6), n = sym ? m : R.one_in(15) ? 0 : R.in(1, 6);
        Ref r = randref(R, m, n, sym, true);
        int how = R.in(0, 2), zeros = R.in(0, 2);
        bool rows = cls == 1;
        bool patternzero = how == 0 ? false : zeros == 1;
        h::evalcase(h::fmt("class %d %ldx%ld how %d zeros %d = %s", cls, m, n, how, zeros, h::vec(r.a).c_str()));
        Sp s = pack(R, r, rows, zeros);
        Matrix* M;
        long ld = n + (R.one_in(3) ? R.in(1, 3) : 0);
        std::vector<double> st(std::max(1l, m * ld), SENT);
        for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) st[i * ld + j] = r.at(i, j);
        if (how == 0) M = cls == 0 ? (Matrix*)new SparseMatrix(m, n, ld, st.data()) : cls == 1 ? (Matrix*)new SparseMatrixRow(m, n, ld, st.data()) : (Matrix*)new SymSparseMat(m, n, ld, st.data());
        else {
            sparse_int_t *a = how == 1 ? s.start.data() : dup(s.start), *b = how == 1 ? s.idx.data() : dup(s.idx); double* v = how == 1 ? s.val.data() : dup(s.val);
            M = cls == 0 ? (Matrix*)new SparseMatrix(m, n, b, a, v) : cls == 1 ? (Matrix*)new SparseMatrixRow(m, n, a, b, v) : (Matrix*)new SymSparseMat(m, n, b, a, v);
            if (how == 2) M->doFreeMemory();
        }
        // without diagonal information
        CHECK(M->diag(0) == INFTY || n == 0 || m == 0, "diag without diagonal information");
        CHECK(M->addToDiag(1.0) == RET_DIAGONAL_NOT_INITIALISED, "addToDiag without diagonal information");
        Matrix* D0 = (sym && R.coin()) ? dynamic_cast<SymSparseMat*>(M)->duplicateSym() : M->duplicate();
        auto info = [&](Matrix* X) { return rows ? dynamic_cast<SparseMatrixRow*>(X)->createDiagInfo() : dynamic_cast<SparseMatrix*>(X)->createDiagInfo(); };
        if (n <= m || rows) { CHECK(info(M) != 0, "createDiagInfo"); CHECK(info(M) == info(M), "createDiagInfo twice"); } else info(M);
        Opt o = {sym, true, rows, true};
        if (patternzero) {                         // stored zeros count as entries for the structural test
            bool dg = m == n; long out = rows ? m : n;
            for (long a = 0; a < out; ++a) for (sparse_int_t k = s.start[a]; k < s.start[a + 1]; ++k) if (s.idx[k] != a) dg = false;
            CHECK((M->isDiag() == BT_TRUE) == dg, "isDiag with stored zeros");
        }
        bool mixed = patternzero;
        if (!mixed) checkmat(M, r, R, o, "sparse");
        Matrix* D = (sym && R.coin()) ? dynamic_cast<SymSparseMat*>(M)->duplicateSym() : M->duplicate();
        if (!mixed) checkmat(D, r, R, o, "duplicate");
        info(D0);
        if (!mixed) checkmat(D0, r, R, o, "early duplicate");
        CHECK(D->needToFreeMemory() == BT_TRUE, "ownership of the duplicate");
        // addToDiag
        double al = R.one_in(4) ? 0 : R.in(1, 4) / 2.0;
        bool have = true;
        for (long i = 0; i < std::min(m, n); ++i) {
            bool f = false;
            if (how == 0) f = true;
            else for (sparse_int_t k = s.start[i]; k < s.start[i + 1]; ++k) if (s.idx[k] == i) f = true;
            if (!f) have = false;
        }
        Ref r2 = r;
        returnValue rv = M->addToDiag(al);
        CHECK(rv == (al == 0 || have ? SUCCESSFUL_RETURN : RET_NO_DIAGONAL_AVAILABLE), "addToDiag code %d, diagonal complete: %d", (int)rv, (int)have);
        if (have) for (long i = 0; i < std::min(m, n); ++i) r2.a[i * n + i] += al;
        { real_t* f = M->full(); for (long i = 0; i < m * n; ++i) CHECK(f[i] == r2.a[i], "after addToDiag: entry %ld is %g expected %g", i, f[i], r2.a[i]); delete[] f; }
        { real_t* f = D->full(); for (long i = 0; i < m * n; ++i) CHECK(f[i] == r.a[i], "duplicate follows the original: entry %ld is %g expected %g", i, f[i], r.a[i]); delete[] f; }
        if (cls != 1 && R.coin()) {                 // new values
            std::vector<double> nv;
            Ref r3 = r2; SparseMatrix* S = dynamic_cast<SparseMatrix*>(M);
            for (long j = 0; j < n; ++j) for (sparse_int_t k = S->jc[j]; k < S->jc[j + 1]; ++k) { double w = R.in(1, 9) / 2.0; nv.push_back(w); r3.a[S->ir[k] * n + j] = w; }
            nv.push_back(SENT);
            S->setVal(nv.data());
            real_t* f = M->full(); for (long i = 0; i < m * n; ++i) CHECK(f[i] == r3.a[i], "after setVal: entry %ld is %g expected %g", i, f[i], r3.a[i]); delete[] f;
        }
        delete M;
        if (!mixed) checkmat(D, r, R, o, "after deleting the original");
        delete D; delete D0;
    }
}
