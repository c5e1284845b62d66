// C02: working sets of bounds and constraints against a plain reference
#include "qps.hpp"
using namespace qpOASES;
typedef SubjectToStatus S;
typedef SubjectToType T;

struct Ref { std::vector<S> st; std::vector<T> ty; std::vector<long> fr, fx; bool nl, nu; };

struct BK {
    typedef Bounds C; static const char* name() { return "Bounds"; }
    static Indexlist* F(C& b) { return b.getFree(); } static Indexlist* X(C& b) { return b.getFixed(); }
    static long nF(C& b) { return b.getNFR(); } static long nX(C& b) { return b.getNFX(); }
    static long n(C& b) { return b.getNV(); } static long nE(C& b) { return b.getNFV(); } static long nB(C& b) { return b.getNBV(); } static long nU(C& b) { return b.getNUV(); }
    static returnValue setup(C& b, long i, S s) { return b.setupBound(i, s); }
    static returnValue toF(C& b, long i) { return b.moveFixedToFree(i); }
    static returnValue toX(C& b, long i, S s) { return b.moveFreeToFixed(i, s); }
    static returnValue allF(C& b) { return b.setupAllFree(); }
    static returnValue setupErr() { return RET_SETUP_BOUND_FAILED; } static returnValue moveErr() { return RET_MOVING_BOUND_FAILED; }
};
struct CK {
    typedef Constraints C; static const char* name() { return "Constraints"; }
    static Indexlist* F(C& b) { return b.getInactive(); } static Indexlist* X(C& b) { return b.getActive(); }
    static long nF(C& b) { return b.getNIAC(); } static long nX(C& b) { return b.getNAC(); }
    static long n(C& b) { return b.getNC(); } static long nE(C& b) { return b.getNEC(); } static long nB(C& b) { return b.getNIC(); } static long nU(C& b) { return b.getNUC(); }
    static returnValue setup(C& b, long i, S s) { return b.setupConstraint(i, s); }
    static returnValue toF(C& b, long i) { return b.moveActiveToInactive(i); }
    static returnValue toX(C& b, long i, S s) { return b.moveInactiveToActive(i, s); }
    static returnValue allF(C& b) { return b.setupAllInactive(); }
    static returnValue setupErr() { return RET_SETUP_CONSTRAINT_FAILED; } static returnValue moveErr() { return RET_MOVING_CONSTRAINT_FAILED; }
};

static void listeq(Indexlist* L, const std::vector<long>& v, const char* nm) {
    CHECK(L->getLength() == (long)v.size(), "%s length %ld expected %s", nm, (long)L->getLength(), h::vec(v).c_str());
    int_t *a, *s; L->getNumberArray(&a); L->getISortArray(&s);
    for (size_t i = 0; i < v.size(); ++i) CHECK(a[i] == v[i], "%s[%zu]=%ld expected %s", nm, i, (long)a[i], h::vec(v).c_str());
    std::vector<char> seen(v.size(), 0);
    for (size_t i = 0; i < v.size(); ++i) { CHECK(s[i] >= 0 && s[i] < (long)v.size() && !seen[s[i]], "%s iSort", nm); seen[s[i]] = 1; if (i) CHECK(a[s[i - 1]] < a[s[i]], "%s order", nm); }
}
template <class Kd> void compare(typename Kd::C& b, const Ref& r) {
    long n = r.st.size();
    CHECK(Kd::n(b) == n, "n=%ld expected %ld", Kd::n(b), n);
    long c[3] = {0, 0, 0};
    for (long i = 0; i < n; ++i) {
        CHECK(b.getStatus(i) == r.st[i], "status[%ld]=%d expected %d", i, (int)b.getStatus(i), (int)r.st[i]);
        CHECK(b.getType(i) == r.ty[i], "type[%ld]=%d expected %d", i, (int)b.getType(i), (int)r.ty[i]);
        if (r.ty[i] == ST_EQUALITY) ++c[0]; if (r.ty[i] == ST_BOUNDED) ++c[1]; if (r.ty[i] == ST_UNBOUNDED) ++c[2];
    }
    CHECK(b.getStatus(-1) == ST_UNDEFINED && b.getStatus(n) == ST_UNDEFINED && b.getType(-1) == ST_UNKNOWN && b.getType(n) == ST_UNKNOWN, "out of range query");
    CHECK(Kd::nE(b) == c[0] && Kd::nB(b) == c[1] && Kd::nU(b) == c[2], "type counts");
    CHECK(Kd::nF(b) == (long)r.fr.size() && Kd::nX(b) == (long)r.fx.size(), "list counts");
    CHECK((b.hasNoLower() == BT_TRUE) == r.nl && (b.hasNoUpper() == BT_TRUE) == r.nu, "noLower/noUpper");
    listeq(Kd::F(b), r.fr, "free"); listeq(Kd::X(b), r.fx, "fixed");
}
static const S SS[] = {ST_LOWER, ST_INACTIVE, ST_UPPER};
static const T TT_[] = {ST_UNBOUNDED, ST_BOUNDED, ST_EQUALITY, ST_UNKNOWN, ST_DISABLED};
static int rk(T t) { return t == ST_UNBOUNDED ? 0 : t == ST_BOUNDED ? 1 : t == ST_EQUALITY ? 2 : 3; }
static void drop(std::vector<long>& v, long i) { v.erase(std::find(v.begin(), v.end(), i)); }
static void rebuild(Ref& r) { r.fr.clear(); r.fx.clear(); for (size_t i = 0; i < r.st.size(); ++i) (r.st[i] == ST_INACTIVE ? r.fr : r.fx).push_back(i); }

static returnValue swp(Bounds& b, long i, long j) { return b.swapFree(i, j); }
static returnValue swp(Constraints& b, long i, long j) { return RET_NOT_YET_IMPLEMENTED; }

template <class Kd> void hist(h::Rng& R, int n, int steps) {
    typename Kd::C b(n), save;
    Ref r, rs; r.st.assign(n, ST_UNDEFINED); r.ty.assign(n, ST_UNKNOWN); r.nl = r.nu = true; rs.nl = rs.nu = true;
    std::string ops = h::fmt("%s(%d):", Kd::name(), n);
    #define OP(...) (ops += h::fmt(__VA_ARGS__), h::ctx = ops)
    compare<Kd>(b, r);
    for (int i = 0; i < n; ++i) { r.ty[i] = TT_[R.in(0, 4)]; OP(" t%d=%d", i, (int)r.ty[i]); CHECK(b.setType(i, r.ty[i]) == SUCCESSFUL_RETURN, "setType"); }
    CHECK(b.setType(n, ST_BOUNDED) == RET_INDEX_OUT_OF_BOUNDS && b.setStatus(-1, ST_LOWER) == RET_INDEX_OUT_OF_BOUNDS && b.setType(-1, ST_BOUNDED) == RET_INDEX_OUT_OF_BOUNDS && b.setStatus(n, ST_LOWER) == RET_INDEX_OUT_OF_BOUNDS, "range");
    compare<Kd>(b, r);
    if (R.coin()) {
        S s = SS[R.in(0, 2)];
        OP(" all=%d", (int)s);
        returnValue e = s == ST_INACTIVE ? Kd::allF(b) : s == ST_LOWER ? b.setupAllLower() : b.setupAllUpper();
        CHECK(e == SUCCESSFUL_RETURN, "setupAll -> %d", (int)e);
        std::vector<long> o; for (int k = 0; k < 4; ++k) for (int i = 0; i < n; ++i) if (rk(r.ty[i]) == k) o.push_back(i);
        for (auto& x : r.st) x = s;
        (s == ST_INACTIVE ? r.fr : r.fx) = o;
    } else {
        std::vector<long> p(n); for (int i = 0; i < n; ++i) p[i] = i;
        for (int i = n - 1; i > 0; --i) std::swap(p[i], p[R.in(0, i)]);
        for (long i : p) { S s = SS[R.in(0, 2)]; OP(" s%ld=%d", i, (int)s); CHECK(Kd::setup(b, i, s) == SUCCESSFUL_RETURN, "setup"); r.st[i] = s; (s == ST_INACTIVE ? r.fr : r.fx).push_back(i); compare<Kd>(b, r); }
        OP(" bad-setup"); CHECK(Kd::setup(b, n, ST_LOWER) == RET_INDEX_OUT_OF_BOUNDS && Kd::setup(b, -1, ST_LOWER) == RET_INDEX_OUT_OF_BOUNDS, "setup range");
        if (n) CHECK(Kd::setup(b, 0, ST_UNDEFINED) == RET_INVALID_ARGUMENTS, "setup of an undefined status");
    }
    compare<Kd>(b, r);
    for (int k = 0; k < steps; ++k) {
        long i = R.in(0, std::max(0, n - 1)), j = R.in(0, std::max(0, n - 1));
        switch (R.in(0, 11)) {
            case 0: case 1: case 2: if (n && r.st[i] != ST_INACTIVE) { OP(" free%ld", i); CHECK(Kd::toF(b, i) == SUCCESSFUL_RETURN, "to free"); r.st[i] = ST_INACTIVE; drop(r.fx, i); r.fr.push_back(i); } break;
            case 3: case 4: case 5: if (n && r.st[i] == ST_INACTIVE) { S s = R.coin() ? ST_LOWER : ST_UPPER; OP(" fix%ld=%d", i, (int)s); CHECK(Kd::toX(b, i, s) == SUCCESSFUL_RETURN, "to fixed"); r.st[i] = s; drop(r.fr, i); r.fx.push_back(i); } break;
            case 6: if (n) { OP(" flip%ld", i); returnValue e = b.flipFixed(i);
                        if (r.st[i] == ST_INACTIVE) CHECK(e == Kd::moveErr(), "flip of a free one -> %d", (int)e); else { CHECK(e == SUCCESSFUL_RETURN, "flip"); r.st[i] = r.st[i] == ST_LOWER ? ST_UPPER : ST_LOWER; } } break;
            case 7: if (n && !strcmp(Kd::name(), "Bounds")) { OP(" swap%ld,%ld", i, j); returnValue e = swp(b, i, j);
                        if (r.st[i] == ST_INACTIVE && r.st[j] == ST_INACTIVE) { CHECK(e == SUCCESSFUL_RETURN, "swap"); std::iter_swap(std::find(r.fr.begin(), r.fr.end(), i), std::find(r.fr.begin(), r.fr.end(), j)); }
                        else if (i != j) CHECK(e == RET_SWAPINDEX_FAILED, "swap of non-free -> %d", (int)e); } break;
            case 8: { long o = R.in(-1, n + 1); OP(" shift%ld", o); returnValue e = b.shift(o);
                        if (o == 0 || n <= 1) CHECK(e == SUCCESSFUL_RETURN, "trivial shift");
                        else if (o < 0 || o > n / 2) CHECK(e == RET_INDEX_OUT_OF_BOUNDS, "shift range -> %d", (int)e);
                        else if (n % o) CHECK(e == RET_INVALID_ARGUMENTS, "shift divisor -> %d", (int)e);
                        else { CHECK(e == SUCCESSFUL_RETURN, "shift -> %d", (int)e); for (long q = 0; q < n - o; ++q) { r.st[q] = r.st[q + o]; r.ty[q] = r.ty[q + o]; } rebuild(r); } } break;
            case 9: { long o = R.in(-1, n + 1); OP(" rotate%ld", o); returnValue e = b.rotate(o);
                        if (o == 0 || o == n || n <= 1) CHECK(e == SUCCESSFUL_RETURN, "trivial rotation");
                        else if (o < 0 || o > n) CHECK(e == RET_INDEX_OUT_OF_BOUNDS, "rotate range -> %d", (int)e);
                        else { CHECK(e == SUCCESSFUL_RETURN, "rotate"); std::rotate(r.st.begin(), r.st.begin() + o, r.st.end()); std::rotate(r.ty.begin(), r.ty.begin() + o, r.ty.end()); rebuild(r); } } break;
            case 10: if (R.coin()) { OP(" save"); save = b; rs = r; } else { OP(" restore"); b = save; r = rs; n = r.st.size(); } break;
            case 11: { OP(" copy"); typename Kd::C c(b); Ref q = r; compare<Kd>(c, q);
                        for (int z = 0; z < n; ++z) if (q.st[z] == ST_INACTIVE) { CHECK(Kd::toX(c, z, ST_UPPER) == SUCCESSFUL_RETURN, "move in copy"); q.st[z] = ST_UPPER; drop(q.fr, z); q.fx.push_back(z); }
                        compare<Kd>(c, q);
                        if (R.coin()) { BooleanType t = R.coin() ? BT_TRUE : BT_FALSE; b.setNoLower(t); r.nl = t == BT_TRUE; t = R.coin() ? BT_TRUE : BT_FALSE; b.setNoUpper(t); r.nu = t == BT_TRUE; } } break;
        }
        OP(" bad"); CHECK(Kd::toF(b, n) == RET_INDEX_OUT_OF_BOUNDS && Kd::toF(b, -1) == RET_INDEX_OUT_OF_BOUNDS && Kd::toX(b, n, ST_LOWER) == RET_INDEX_OUT_OF_BOUNDS && Kd::toX(b, -1, ST_LOWER) == RET_INDEX_OUT_OF_BOUNDS && b.flipFixed(n) == RET_INDEX_OUT_OF_BOUNDS && b.flipFixed(-1) == RET_INDEX_OUT_OF_BOUNDS, "range");
        compare<Kd>(b, r); compare<Kd>(save, rs);
    }
    if (R.one_in(4)) { int m = R.in(0, 8); OP(" init%d", m); CHECK(b.init(-1) == RET_INVALID_ARGUMENTS, "init(-1)"); compare<Kd>(b, r); CHECK(b.init(m) == SUCCESSFUL_RETURN, "init"); Ref q; q.st.assign(m, ST_UNDEFINED); q.ty.assign(m, ST_UNKNOWN); q.nl = q.nu = true; compare<Kd>(b, q); }
    h::evalcase(ops, n > 1);
}
// consistency of a working set taken from a solver
template <class Kd> void consistent(typename Kd::C& b, const char* nm) {
    std::vector<long> in(Kd::n(b), 0);
    for (int w = 0; w < 2; ++w) {
        Indexlist* L = w ? Kd::X(b) : Kd::F(b); int_t* a; L->getNumberArray(&a);
        for (int i = 0; i < L->getLength(); ++i) {
            CHECK(a[i] >= 0 && a[i] < Kd::n(b) && !in[a[i]], "%s: index %ld listed twice or out of range", nm, (long)a[i]);
            in[a[i]] = 1;
            S s = b.getStatus(a[i]);
            CHECK(w ? (s == ST_LOWER || s == ST_UPPER) : s == ST_INACTIVE, "%s: index %ld has status %d but is in the %s list", nm, (long)a[i], (int)s, w ? "fixed" : "free");
            CHECK(L->getIndex(a[i]) == i, "%s getIndex", nm);
        }
    }
    for (int i = 0; i < Kd::n(b); ++i) CHECK(in[i], "%s: index %d in no list (status %d)", nm, i, (int)b.getStatus(i));
}
static void run(h::Rng& R) {
    QUIET();
    for (int t = 0; t < 900 * g_scale; ++t) { int n = R.in(0, 9); hist<BK>(R, n, R.in(0, 40)); hist<CK>(R, n, R.in(0, 40)); }
    for (int t = 0; t < 200 * g_scale; ++t) {
        h::QP q = h::randqp(R, R.in(1, 6), R.in(1, 6));
        h::evalcase(h::desc(q));
        QProblem p(q.nV, q.nC); Options o; o.printLevel = PL_NONE; p.setOptions(o);
        int_t nWSR = R.one_in(3) ? R.in(0, 3) : 100;
        p.init(q.H.data(), q.g.data(), q.A.data(), q.lb.data(), q.ub.data(), q.lbA.data(), q.ubA.data(), nWSR);
        for (int k = 0; k < 3; ++k) {
            if (p.getStatus() == QPS_NOTINITIALISED) break;
            Bounds b; Constraints c; p.getBounds(b); p.getConstraints(c);
            consistent<BK>(b, "bounds"); consistent<CK>(c, "constraints");
            CHECK(p.getNFR() + p.getNFX() == q.nV && p.getNAC() + p.getNIAC() == q.nC && p.getNAC() <= p.getNFR(), "counts");
            h::QP z = h::randqp(R, q.nV, q.nC);
            nWSR = R.one_in(3) ? R.in(0, 3) : 100;
            h::ctx = h::desc(q) + " then " + h::desc(z);
            p.hotstart(z.g.data(), z.lb.data(), z.ub.data(), z.lbA.data(), z.ubA.data(), nWSR);
        }
    }
}
