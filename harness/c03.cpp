// C03: dense matrices
#include "mat.hpp"
static void run(h::Rng& R) {
    QUIET();
    long N = 500 * g_scale;
    for (long t = 0; t < N; ++t) {
        bool sym = R.coin();
        long m = R.one_in(15) ? 0 : R.in(1, 6), n = sym ? m : R.one_in(15) ? 0 : R.in(1, 6);
        Ref r = randref(R, m, n, sym, true);
        long ld = n + (R.one_in(3) ? R.in(1, 3) : 0);
        std::vector<double> st(std::max(1l, m * ld), SENT);
        for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) st[i * ld + j] = r.at(i, j);
        std::vector<double> st0 = st;
        Opt o = {sym, false, false, true};
        h::evalcase(h::fmt("dense %ldx%ld leaDim %ld = %s", m, n, ld, h::vec(r.a).c_str()));
        bool own = R.coin();
        double* data = st.data();
        if (own) { data = new double[st.size()]; std::copy(st.begin(), st.end(), data); }
        Matrix* M = sym ? (Matrix*)new SymDenseMat(m, n, ld, data) : (Matrix*)new DenseMatrix(m, n, ld, data);
        if (own) M->doFreeMemory();
        checkmat(M, r, R, o, own ? "own" : "shared");
        Matrix* D = (sym && R.coin()) ? dynamic_cast<SymDenseMat*>(M)->duplicateSym() : M->duplicate();
        checkmat(D, r, R, o, "duplicate");
        CHECK(D->needToFreeMemory() == (own ? BT_TRUE : BT_FALSE), "ownership of the duplicate");
        double al = R.one_in(4) ? 0 : R.in(-4, 4) / 2.0;
        Ref r2 = r;
        for (long i = 0; i < std::min(m, n); ++i) r2.a[i * n + i] += al;
        CHECK(M->addToDiag(al) == SUCCESSFUL_RETURN, "addToDiag code");
        checkmat(M, r2, R, o, "addToDiag");
        if (own) { checkmat(D, r, R, o, "duplicate after change"); }
        for (long i = 0; i < m; ++i) for (long j = n; j < ld; ++j) CHECK(data[i * ld + j] == SENT, "padding changed");
        delete D; 
        checkmat(M, r2, R, o, "after deleting the duplicate");
        delete M;
        if (!own) for (size_t i = 0; i < st.size(); ++i) { long rr = ld ? i / ld : 0, c = ld ? i % ld : 0; CHECK(st[i] == (m && ld && rr == c && c < n ? st0[i] + al : st0[i]), "shared data"); }
    }
}
