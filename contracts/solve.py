"""C13: exit conditions of the solver drivers: solveQP, solveRegularisedQP, hotstart, CPU time limit."""
from qpv.dsl import *
from contracts.homotopy import base, arrs, me, z0, nV, nC, INF, arrmods, lists, length, RELD

I = z3.IntVal
CLOCK = z3.Real("clock!0")
ARR_B = ["x", "y", "g", "lb", "ub"]
ARR_C = ARR_B + ["lbA", "ubA", "Ax", "Ax_l", "Ax_u"]


def mrefi(c, i):
    return mref(c.old, list(c.old._args)[i])


def everything(c, con, flags=False):
    """the data of the current QP, its iterate and the length of the last step may change; never the status, the options or the sizes"""
    m = me(c)
    return arrmods(c, ARR_C if con else ARR_B) + [mfield(m, "tau")] + ([mfield(m, "infeasible"), mfield(m, "unbounded")] if flags else [])


def tab(c):
    t = me(c).tabularOutput
    return [mfield(t, a + b) for a in ("idx", "exc") for b in ("AddB", "RemB", "AddC", "RemC")]


def ghost(c):
    """specification-only member: number of changes of the working set (changeActiveSet calls that return success) made on the object"""
    return [mfield(me(c), "ghostChanges")]


def done(c):
    return c.new.this.ghostChanges - me(c).ghostChanges


def out(c, *idx):
    return [x for i in idx for x in marr(c.old.argi(i))]


def trusted(R):
    """parts of an iteration; everything a caller could rely on except what is stated may change"""
    why = "step of the iteration: assumed to change data, iterate and working set only (status, options and sizes are assigned nowhere else)"
    for con in (False, True):
        cls = "QProblem" if con else "QProblemB"
        ret = lambda c: [("code", And(c.ret != c.E["RET_MAX_NWSR_REACHED"]))]
        if con:
            R.add("QProblem::determineDataShift", trusted="proved by C07", requires=lambda c: [], ensures=ret, modifies=lambda c: out(c, 5, 6, 7, 8, 9) + [mrefi(c, 10), mrefi(c, 11)])
            R.add("QProblem::determineStepDirection", trusted=why, requires=lambda c: [], ensures=ret, modifies=lambda c: out(c, 7, 8, 9, 10))
            R.add("QProblem::performStep", trusted=why, requires=lambda c: [], ensures=ret, modifies=lambda c: everything(c, True) + [mrefi(c, 9), mrefi(c, 10), mrefi(c, 11)])
            R.add("QProblem::updateActivitiesForHotstart", trusted=why, requires=lambda c: [], ensures=ret, modifies=lambda c: everything(c, True, True))
            R.add("QProblem::computeProjectedCholesky", trusted=why, requires=lambda c: [], ensures=ret, modifies=lambda c: everything(c, True))
        else:
            R.add("QProblemB::determineDataShift", trusted="proved by C07", requires=lambda c: [], ensures=ret, modifies=lambda c: out(c, 3, 4, 5) + [mrefi(c, 6)])
            R.add("QProblemB::determineStepDirection", trusted=why, requires=lambda c: [], ensures=ret, modifies=lambda c: out(c, 4, 5, 6))
            R.add("QProblemB::performStep", trusted=why, requires=lambda c: [], ensures=ret, modifies=lambda c: everything(c, False) + [mrefi(c, 6), mrefi(c, 7)])
            R.add("QProblemB::computeCholesky", trusted="its effect on the factor is proved by C05", requires=lambda c: [], ensures=ret, modifies=lambda c: [])
            R.add("QProblemB::setupSubjectToType", sig="(const real_t", trusted="proved by C09", requires=lambda c: [], ensures=lambda c: [("ret", c.ret == 0)], modifies=lambda c: [])
            R.add("QProblemB::adaptImplicitEqualities", trusted="proved by C09", requires=lambda c: [], ensures=lambda c: [("ret", c.ret == 0)], modifies=lambda c: [])
        R.add(cls + "::changeActiveSet", trusted=why, requires=lambda c: [], ensures=lambda c: [("code", c.ret != c.E["RET_MAX_NWSR_REACHED"]), ("flags", Implies(c.ret == 0, And(c.new.this.infeasible == me(c).infeasible, c.new.this.unbounded == me(c).unbounded))), ("one", c.new.this.ghostChanges == me(c).ghostChanges + If(c.ret == 0, I(1), I(0)))], modifies=lambda c, con=con: everything(c, con, True) + ghost(c))
        for f in ("performRamping", "performDriftCorrection"):
            R.add(cls + "::" + f, trusted="proved by C12", requires=lambda c: [], ensures=ret, modifies=lambda c, con=con: everything(c, con))
        R.add(cls + "::printIteration", trusted="prints only", requires=lambda c: [], ensures=ret, modifies=lambda c: [])


def clock(R):
    q = "QProblemB::isCPUtimeLimitExceeded"

    def post(c):
        lim, st, n = c.old.argi(0), c.old.argi(1), c.old.argi(2)
        el = CLOCK - st
        return [("no-limit", Implies(lim.null, c.ret == 0)), ("first", Implies(n <= 0, c.ret == 0)),
                ("limit", Implies(And(Not(lim.null), n > 0), c.ret == If(el + el / z3.ToReal(n) * z3.RealVal("1.25") <= lim[0], I(0), I(1))))]
    req = lambda c: [("one", Or(c.old.argi(0).null, c.old.argi(0).size >= 1))]
    R.add(q, only_variant=True, requires=req, ensures=post, modifies=lambda c: [])
    R.add(q, only_call=True, requires=req, ensures=lambda c: [("range", Or(c.ret == 0, c.ret == 1)), ("no-limit", Implies(c.old.argi(0).null, c.ret == 0)), ("first", Implies(c.old.argi(2) <= 0, c.ret == 0))], modifies=lambda c: [])


def usable(c, s):
    return Or(*[s == c.E[k] for k in ("QPS_AUXILIARYQPSOLVED", "QPS_HOMOTOPYQPSOLVED", "QPS_SOLVED")])


def news(con):
    """(argument, member, size, may be absent)"""
    return [(0, "g", nV, False), (1, "lb", nV, True), (2, "ub", nV, True)] + ([(3, "lbA", nC, True), (4, "ubA", nC, True)] if con else [])


def reached(c, con):
    """stored data agree with the new data up to the termination tolerance"""
    o = me(c).options
    return [("reached-" + f, Implies(And(c.ret == 0, Not(c.old.argi(i).null)),
             allin(0, n(c), lambda k: RELD(c.old.argi(i)[k], getattr(c.new.this, f)[k]) <= o.terminationTolerance, pats=lambda k: [c.old.argi(i)[k], getattr(c.new.this, f)[k]]))) for i, f, n, _ in news(con)]


def req(c, con, perf):
    out = base(c, con, ["x", "g", "lb", "ub", "y"] + (["lbA", "ubA", "Ax"] if con else []))
    for i, f, n, opt in news(con):
        a = c.old.argi(i)
        out.append(("new-" + f, Implies(n(c) > 0, Or(a.null, a.size >= n(c)) if opt else And(Not(a.null), a.size >= n(c)))))
    w = 5 if con else 3
    out.append(("cputime", Or(c.old.argi(w + 1).null, c.old.argi(w + 1).size >= 1)))
    out.append(("status", And(me(c).status >= 0, me(c).status <= 5)))
    return out


def exits(c, con, data=True, perf=True):
    E, w, s = c.E, 5 if con else 3, c.new.this
    lim, n1, t = c.old.argi(w), c.new.argi(w), c.old.argi(w + 1)
    p0 = c.old.argi(w + 2) if perf else I(0)
    r = [("solved", Implies(c.ret == 0, And(s.status == E["QPS_SOLVED"], s.infeasible == 0, s.unbounded == 0))),
         ("solved-within-limit", Implies(c.ret == 0, And(p0 <= n1, n1 < lim))), ("count", And(n1 <= lim, n1 >= If(p0 <= lim, p0, lim))), ("status", And(s.status >= 0, s.status <= 5)),
         ("counted", Implies(And(Or(c.ret == 0, c.ret == E["RET_MAX_NWSR_REACHED"], And(usable(c, me(c).status), s.infeasible == 1, s.status == E["QPS_HOMOTOPYQPSOLVED"])), p0 <= lim), n1 - p0 == done(c)))]
    if data:
        r += reached(c, con)
    return r


def drivers(R):
    for con in (False, True):
        cls = "QProblem" if con else "QProblemB"
        w = 5 if con else 3
        q = cls + "::solveQP"

        def mods(c, con=con, w=w):
            return everything(c, con, True) + [mfield(me(c), "status"), *tab(c), mrefi(c, w)] + ghost(c) + marr(c.old.argi(w + 1))

        def post(c, con=con, w=w):
            E, s = c.E, c.new.this
            ini = usable(c, me(c).status)
            return exits(c, con) + [
                ("refused", Implies(Not(ini), And(done(c) == 0, c.ret == E["RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED"], s.status == me(c).status, c.new.argi(w) == c.old.argi(w)))),
                ("limit", Implies(c.ret == E["RET_MAX_NWSR_REACHED"], And(usable(c, s.status), s.infeasible == 0, s.unbounded == 0))),
                ("no-time-limit", Implies(And(c.old.argi(w + 1).null, c.ret == E["RET_MAX_NWSR_REACHED"]), c.new.argi(w) == c.old.argi(w))),
                ("infeasible", Implies(And(s.infeasible == 1, ini, s.status != E["QPS_PERFORMINGHOMOTOPY"]), And(c.ret == E["RET_HOTSTART_STOPPED_INFEASIBILITY"], s.status == E["QPS_HOMOTOPYQPSOLVED"]))),
                ("not-solved", Implies(And(c.ret != 0, s.status == E["QPS_SOLVED"]), And(me(c).status == E["QPS_SOLVED"], c.old.argi(w + 2) >= c.old.argi(w)))),
            ]
        R.add(q, requires=lambda c, con=con: req(c, con, True), ensures=post, modifies=mods, auto=False)

        def inv(c, con=con, w=w):
            E, s = c.E, c.new.this
            return [("r", c.iv >= c.old.argi(w + 2)), ("lim", c.new.argi(w) == c.old.argi(w)), ("flags", And(s.infeasible == 0, s.unbounded == 0)),
                    ("status", If(c.iv == c.old.argi(w + 2), usable(c, s.status) , s.status == E["QPS_HOMOTOPYQPSOLVED"])),
                    ("time", Or(c.old.argi(w + 1).null, c.new.argi(w + 1)[0] == c.old.argi(w + 1)[0])), ("in", Or(c.iv == c.old.argi(w + 2), c.iv <= c.old.argi(w))), ("counted", c.iv - c.old.argi(w + 2) == done(c))] + ([("status0", Implies(c.iv == c.old.argi(w + 2), s.status == me(c).status))] if not con else [("status0", Implies(c.iv == c.old.argi(w + 2), s.status == E["QPS_HOMOTOPYQPSOLVED"]))])
        R.loop(q, "0" if con else "1", inv)
        if not con:
            R.loop(q, "0", lambda c: [("r", rng(c.iv, 0, nV(c) + 1))])


def regularised(R):
    """successive solves of the regularised problem within one budget"""
    for con in (False, True):
        cls = "QProblem" if con else "QProblemB"
        w = 5 if con else 3
        q = cls + "::solveRegularisedQP"
        reg = lambda c: me(c).regVal > ZERO

        def mods(c, con=con, w=w):
            return everything(c, con, True) + [mfield(me(c), "status"), *tab(c), mrefi(c, w)] + ghost(c) + marr(c.old.argi(w + 1))

        def post(c, con=con, w=w):
            E, s = c.E, c.new.this
            ini = usable(c, me(c).status)
            d = reached(c, con)
            return exits(c, con, data=False) + [(nm, Implies(Not(reg(c)), f)) if nm == "reached-g" else (nm, f) for nm, f in d] + [
                ("gradient", Implies(And(c.ret == 0, reg(c)), allin(0, nV(c), lambda k: s.g[k] == c.old.argi(0)[k], pats=lambda k: [s.g[k]]))),
                ("limit", Implies(c.ret == E["RET_MAX_NWSR_REACHED"], And(usable(c, s.status), s.infeasible == 0, s.unbounded == 0))),
                ("no-time-limit", Implies(And(c.old.argi(w + 1).null, c.ret == E["RET_MAX_NWSR_REACHED"]), c.new.argi(w) == c.old.argi(w))),
                ("refused", Implies(Not(ini), And(done(c) == 0, c.ret == E["RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED"], s.status == me(c).status, c.new.argi(w) == c.old.argi(w)))),
                ("infeasible", Implies(And(s.infeasible == 1, ini, s.status != E["QPS_PERFORMINGHOMOTOPY"]), And(c.ret == E["RET_HOTSTART_STOPPED_INFEASIBILITY"], s.status == E["QPS_HOMOTOPYQPSOLVED"]))),
                ("not-solved", Implies(And(c.ret != 0, s.status == E["QPS_SOLVED"]), And(me(c).status == E["QPS_SOLVED"], c.old.argi(w + 2) >= c.old.argi(w))))]
        R.add(q, requires=lambda c, con=con: req(c, con, True), ensures=post, modifies=mods, auto=False)

        def steps(c, con=con, w=w):
            E, s, n1 = c.E, c.new.this, c.v("nWSR_total")
            out = [("r", c.iv >= 0), ("solved", And(s.status == E["QPS_SOLVED"], s.infeasible == 0, s.unbounded == 0)), ("count", And(n1 == c.new.argi(w), c.old.argi(w + 2) <= n1, n1 < c.old.argi(w))), ("counted", n1 - c.old.argi(w + 2) == done(c)),
                   ("init", usable(c, me(c).status)), ("time", Or(c.old.argi(w + 1).null, c.new.argi(w + 1)[0] == c.old.argi(w + 1)[0]))]
            o = me(c).options
            for i, f, n, _ in news(con)[1:]:
                out.append(("reached-" + f, Implies(Not(c.old.argi(i).null), allin(0, n(c), lambda k: RELD(c.old.argi(i)[k], getattr(s, f)[k]) <= o.terminationTolerance, pats=lambda k: [c.old.argi(i)[k], getattr(s, f)[k]]))))
            return out
        R.loop(q, "0", steps)
        R.loop(q, "0.0", lambda c: [("r", rng(c.iv, 0, nV(c) + 1))])
        R.loop(q, "1", lambda c: [("r", rng(c.iv, 0, nV(c) + 1)), ("g", allin(0, c.iv, lambda k: c.new.this.g[k] == c.old.argi(0)[k], pats=lambda k: [c.new.this.g[k]]))])


def hotstarts(R):
    """one call of the user: at most nWSR changes altogether, also over all enlargements of far bounds"""
    for con in (False, True):
        cls = "QProblem" if con else "QProblemB"
        w = 5 if con else 3
        why = "only its effect on the exit conditions matters here: assumed not to touch options, counters and sizes"
        if con:
            R.add("QProblem::setupAuxiliaryQP", sig="(const Bounds *const, const Constraints *const)", trusted=why, requires=lambda c: [], ensures=lambda c: [], modifies=lambda c: everything(c, True) + [mfield(me(c), "status")])
        else:
            R.add("QProblemB::setupAuxiliaryQP", sig="(const Bounds *const)", trusted=why, requires=lambda c: [], ensures=lambda c: [], modifies=lambda c: everything(c, False) + [mfield(me(c), "status")])
        R.add(cls + "::setupInitialCholesky", trusted=why, requires=lambda c: [], ensures=lambda c: [("code", c.ret != c.E["RET_MAX_NWSR_REACHED"])], modifies=lambda c: [mfield(me(c), "regVal"), mfield(me(c), "haveCholesky"), mfield(me(c), "hessianType")])
        R.add(cls + "::areBoundsConsistent", trusted="proved by C09", requires=lambda c: [], ensures=lambda c: [("ret", Or(c.ret == 0, c.ret == c.E["RET_QP_INFEASIBLE"]))], modifies=lambda c: [])
        R.add(cls + "::updateFarBounds", trusted="proved by C12", requires=lambda c: [], ensures=lambda c: [], modifies=lambda c, con=con: out(c, *((3, 5, 7, 9) if con else (3, 5))))
        q = cls + "::hotstart"

        def mods(c, con=con, w=w):
            m = me(c)
            return everything(c, con, True) + [mfield(m, f) for f in ("status", "count", "regVal", "haveCholesky", "hessianType", "rampOffset", "ghostChanges")] + [*tab(c), mrefi(c, w)] + marr(c.old.argi(w + 1))

        def post(c, con=con, w=w):
            E, s, m = c.E, c.new.this, me(c)
            lim, n1 = c.old.argi(w), c.new.argi(w)
            plain = And(m.options.enableFarBounds == 0)
            d = reached(c, con)
            return [("solved", Implies(c.ret == 0, And(s.status == E["QPS_SOLVED"], s.infeasible == 0, s.unbounded == 0))),
                    ("solved-within-limit", Implies(c.ret == 0, And(0 <= n1, n1 < lim))), ("at-most", n1 <= lim),
                    ("limit", Implies(c.ret == E["RET_MAX_NWSR_REACHED"], And(usable(c, s.status), s.infeasible == 0, s.unbounded == 0))),
                    ("no-time-limit", Implies(And(c.old.argi(w + 1).null, c.ret == E["RET_MAX_NWSR_REACHED"]), n1 == lim)),
                    ("counted", Implies(And(lim > 0, Or(c.ret == 0, c.ret == E["RET_MAX_NWSR_REACHED"])), n1 == done(c))),
                    ("no-variables", Implies(nV(c) == 0, c.ret == E["RET_QPOBJECT_NOT_SETUP"]))] + \
                   [(nm, Implies(And(plain, Or(nm != "reached-g", Not(s.regVal > ZERO))), f)) for nm, f in d] + \
                   [("counter", Or(s.count == m.count, s.count == m.count + 1)), ("count-if-solved", Implies(c.ret == 0, s.count == m.count + 1))]
        g = "const Bounds *const" + (", const Constraints *const" if con else "") + ")"
        R.add(q, sig="(const real_t *const, const real_t *const, const real_t *const, " + ("const real_t *const, const real_t *const, " if con else "") + "int_t &, real_t *const, " + g,
              requires=lambda c, con=con: req(c, con, False) + [("growth", me(c).options.growFarBounds >= z3.RealVal("1.1"))], ensures=post, modifies=mods, auto=False)
        far = 4 if con else 2
        for l in range(far):
            R.loop(q, str(l), lambda c, l=l: [("r", rng(c.iv, 0, (nV if l < 2 else nC)(c) + 1))])
        R.loop(q, str(far), lambda c, w=w: [("budget", And(c.v("nWSR_performed") >= If(c.old.argi(w) >= 0, I(0), c.old.argi(w)), c.v("nWSR_performed") <= If(c.old.argi(w) >= 0, c.old.argi(w), I(0)), c.v("nWSR_max") == c.old.argi(w), c.new.argi(w) <= c.old.argi(w))),
                                            ("count", c.new.this.count == me(c).count + 1), ("pass", If(c.v("isFirstCall") == 1, c.v("nWSR_performed") == 0, c.new.this.status != c.E["QPS_SOLVED"])), ("counted", Implies(And(c.old.argi(w) > 0, Or(c.v("isFirstCall") == 1, usable(c, c.new.this.status))), c.v("nWSR_performed") == done(c))),
                                            ("status", And(c.new.this.status >= 0, c.new.this.status <= 5))])
        for l in range(far // 2):
            R.loop(q, "%d.%d" % (far, l), lambda c, l=l: [("r", rng(c.iv, 0, (nV if l == 0 else nC)(c) + 1))])


def setup(R):
    R.ghosts.append(("QProblemB", "ghostChanges"))
    trusted(R)
    length(R)
    clock(R)
    drivers(R)
    regularised(R)
    hotstarts(R)
    return R
