// C14: option presets, copies, consistency repair, transport into the solver and through the C interface
#include "h.hpp"
USING_NAMESPACE_QPOASES
extern "C" {
#include "qpOASES_wrapper.h"
}
using namespace qpOASES;
// X(name, default, reliable, mpc)
#define OPTS(X) \
  X(printLevel, PL_MEDIUM, PL_MEDIUM, PL_MEDIUM) X(enableRamping, 1, 1, 0) X(enableFarBounds, 1, 1, 1) X(enableFlippingBounds, 1, 1, 0) \
  X(enableRegularisation, 0, 0, 1) X(enableFullLITests, 0, 1, 0) X(enableNZCTests, 1, 1, 0) X(enableDriftCorrection, 1, 1, 0) \
  X(enableCholeskyRefactorisation, 0, 1, 0) X(enableEqualities, 0, 0, 1) X(terminationTolerance, 5.0e6 * EPS, 5.0e6 * EPS, 1.0e9 * EPS) \
  X(boundTolerance, 1.0e6 * EPS, 1.0e6 * EPS, 1.0e6 * EPS) X(boundRelaxation, 1.0e4, 1.0e4, 1.0e4) X(epsNum, -1.0e3 * EPS, -1.0e3 * EPS, -1.0e3 * EPS) \
  X(epsDen, 1.0e3 * EPS, 1.0e3 * EPS, 1.0e3 * EPS) X(maxPrimalJump, 1.0e8, 1.0e8, 1.0e8) X(maxDualJump, 1.0e8, 1.0e8, 1.0e8) X(initialRamping, 0.5, 0.5, 0.5) \
  X(finalRamping, 1.0, 1.0, 1.0) X(initialFarBounds, 1.0e6, 1.0e6, 1.0e6) X(growFarBounds, 1.0e3, 1.0e3, 1.0e3) X(initialStatusBounds, ST_LOWER, ST_LOWER, ST_INACTIVE) \
  X(epsFlipping, 1.0e3 * EPS, 1.0e3 * EPS, 1.0e3 * EPS) X(numRegularisationSteps, 0, 0, 1) X(epsRegularisation, 1.0e3 * EPS, 1.0e3 * EPS, 1.0e3 * EPS) \
  X(numRefinementSteps, 1, 2, 0) X(epsIterRef, 1.0e2 * EPS, 1.0e2 * EPS, 1.0e2 * EPS) X(epsLITests, 1.0e5 * EPS, 1.0e5 * EPS, 1.0e5 * EPS) \
  X(epsNZCTests, 3.0e3 * EPS, 3.0e3 * EPS, 3.0e3 * EPS) X(enableInertiaCorrection, 1, 1, 1) X(rcondSMin, 1.0e-14, 1.0e-14, 1.0e-14) \
  X(enableDropInfeasibles, 0, 0, 0) X(dropBoundPriority, 1, 1, 1) X(dropEqConPriority, 1, 1, 1) X(dropIneqConPriority, 1, 1, 1)

template <class O> static std::map<std::string, double> dump(const O& o) {
    std::map<std::string, double> m;
    #define X(n, a, b, c) m[#n] = (double)o.n;
    OPTS(X)
    #undef X
    return m;
}
static std::map<std::string, double> preset(int k) {
    std::map<std::string, double> m;
    #define X(n, a, b, c) m[#n] = k == 0 ? (double)(a) : k == 1 ? (double)(b) : (double)(c);
    OPTS(X)
    #undef X
    return m;
}
static void eq(const std::map<std::string, double>& got, const std::map<std::string, double>& want, const char* w) {
    for (auto& e : want) CHECK(std::fabs(got.at(e.first) - e.second) <= 1e-12 * std::fabs(e.second), "%s: option %s is %.17g expected %.17g", w, e.first.c_str(), got.at(e.first), e.second);
}
static double rr(h::Rng& R) { static const double v[] = {-1e6, -1.0, -EPS, 0.0, EPS, 1e-8, 0.3, 1.0, 1.05, 1.1, 1.2, 1e3, 1e4, 1.1e4, 1e7}; return R.coin() ? v[R.in(0, 14)] : R.real(-2, 3); }
template <class O> static void randomise(O& o, h::Rng& R) {
    o.printLevel = (decltype(o.printLevel))R.in(-2, 3);
    #define B(n) o.n = (decltype(o.n))R.in(0, 1);
    B(enableRamping) B(enableFarBounds) B(enableFlippingBounds) B(enableRegularisation) B(enableFullLITests) B(enableNZCTests) B(enableEqualities) B(enableDropInfeasibles) B(enableInertiaCorrection)
    #undef B
    #define I(n) o.n = R.in(-3, 5);
    I(enableDriftCorrection) I(enableCholeskyRefactorisation) I(numRegularisationSteps) I(numRefinementSteps) I(dropBoundPriority) I(dropEqConPriority) I(dropIneqConPriority)
    #undef I
    #define D(n) o.n = rr(R);
    D(terminationTolerance) D(boundTolerance) D(boundRelaxation) D(epsNum) D(epsDen) D(maxPrimalJump) D(maxDualJump) D(initialRamping) D(finalRamping) D(initialFarBounds) D(growFarBounds)
    D(epsFlipping) D(epsRegularisation) D(epsIterRef) D(epsLITests) D(epsNZCTests) D(rcondSMin)
    #undef D
    o.initialStatusBounds = (decltype(o.initialStatusBounds))R.in(-1, 1);
}
static std::map<std::string, double> repaired(std::map<std::string, double> m, bool& adj) {
    adj = false;
    for (auto n : {"enableDriftCorrection", "enableCholeskyRefactorisation", "numRegularisationSteps", "numRefinementSteps", "initialRamping", "finalRamping"}) if (m[n] < 0) m[n] = 0, adj = true;
    for (auto n : {"terminationTolerance", "epsIterRef", "epsRegularisation", "boundTolerance", "boundRelaxation", "maxPrimalJump", "maxDualJump", "epsFlipping"}) if (m[n] <= 0) m[n] = EPS, adj = true;
    for (auto n : {"epsLITests", "epsNZCTests"}) if (m[n] < 0) m[n] = EPS, adj = true;
    if (m["initialFarBounds"] <= m["boundRelaxation"]) m["initialFarBounds"] = m["boundRelaxation"] * (1 + EPS) + EPS, adj = true;
    if (m["growFarBounds"] < 1.1) m["growFarBounds"] = 1.1, adj = true;
    return m;
}
static std::string show(const std::map<std::string, double>& m) { std::string s; for (auto& e : m) s += h::fmt("%s=%.17g ", e.first.c_str(), e.second); return s; }

template <class Q> static void transport(Q& q, const Options& o, const char* w) {
    auto d = dump(o); bool adj;
    auto want = repaired(d, adj);
    CHECK(q.setOptions(o) == SUCCESSFUL_RETURN, "%s.setOptions", w);
    eq(dump(q.getOptions()), want, w);
    eq(dump(o), d, "argument of setOptions");
}

static void run(h::Rng& R) {
    QUIET();
    for (int k = 0; k < 4; ++k) {
        Options o; randomise(o, R);
        h::evalcase(h::fmt("preset %d after random values", k));
        returnValue e = k == 0 ? o.setToDefault() : k == 1 ? o.setToReliable() : k == 2 ? o.setToMPC() : o.setToFast();
        CHECK(e == SUCCESSFUL_RETURN, "return value %d", (int)e);
        eq(dump(o), preset(k > 2 ? 2 : k), "preset");
        Options n; eq(dump(n), preset(0), "constructor");
        bool adj; repaired(dump(o), adj); CHECK(!adj, "preset is consistent");
        CHECK(o.ensureConsistency() == SUCCESSFUL_RETURN, "preset is consistent");
        if (k < 3) {
            qpOASES_Options c; randomise(c, R);
            CHECK(qpOASES_Options_init(&c, k) == 0, "C init"); eq(dump(c), preset(k), "C preset");
            CHECK(qpOASES_Options_copy(&c, &n) == 0, "C copy"); eq(dump(n), preset(k), "C preset copied");
        }
    }
    { qpOASES_Options c; randomise(c, R); auto d = dump(c); h::evalcase("C init/copy refuse invalid arguments");
      CHECK(qpOASES_Options_init(&c, -1) == -1 && qpOASES_Options_init(&c, 3) == -1 && qpOASES_Options_init(0, 0) == -1, "invalid mode"); eq(dump(c), d, "unchanged");
      Options o; CHECK(qpOASES_Options_copy(0, &o) == -1 && qpOASES_Options_copy(&c, 0) == -1, "null"); eq(dump(o), preset(0), "unchanged"); }
    QProblemB qb(2); QProblem qp(2, 1); SQProblem sq(2, 1);
    for (long i = 0; i < 3000 * g_scale; ++i) {
        Options o, p; randomise(o, R);
        auto d = dump(o); bool adj;
        auto want = repaired(d, adj);
        h::evalcase(show(d));
        Options c(o); eq(dump(c), d, "copy constructor");
        randomise(p, R); p = o; eq(dump(p), d, "assignment"); p = p; eq(dump(p), d, "self assignment");
        randomise(p, R); eq(dump(o), d, "independence of copies");
        CHECK(c.ensureConsistency() == (adj ? RET_OPTIONS_ADJUSTED : SUCCESSFUL_RETURN), "ensureConsistency return value");
        eq(dump(c), want, "ensureConsistency");
        CHECK(c.ensureConsistency() == SUCCESSFUL_RETURN, "ensureConsistency not idempotent"); eq(dump(c), want, "second ensureConsistency");
        if (i % 10 == 0) {
            transport(qb, o, "QProblemB"); transport(qp, o, "QProblem"); transport(sq, o, "SQProblem");
            QProblem q2(qp); eq(dump(q2.getOptions()), want, "copied solver"); 
            PrintLevel pl = (PrintLevel)R.in(-2, 3); CHECK(qp.setPrintLevel(pl) == SUCCESSFUL_RETURN && qp.getPrintLevel() == pl, "setPrintLevel");
            auto w2 = want; w2["printLevel"] = pl; eq(dump(qp.getOptions()), w2, "setPrintLevel leaves the rest"); eq(dump(q2.getOptions()), want, "copied solver independent");
        }
        qpOASES_Options co; randomise(co, R); auto cd = dump(co);
        CHECK(qpOASES_Options_copy(&co, &p) == 0, "C copy"); eq(dump(p), cd, "C copy"); eq(dump(co), cd, "C source");
    }
}
