"""C09/C10: problem data setters, classification of limits, queries of the solver state."""
from qpv.dsl import *
from contracts.homotopy import base, arrs, mid, me, z0, nV, nC, MX, matrices, INF, arrmods, lists

SOLVED = ("QPS_AUXILIARYQPSOLVED", "QPS_HOMOTOPYQPSOLVED", "QPS_SOLVED")
QF = z3.Function("QF", Int, RA, Int, Int, Real)          # 1/2 x'Mx over the first n rows
register_spec(QF, lambda m, x, o, n, depth=0: [] if depth else [Implies(n <= 0, QF(m, x, o, n) == 0), Implies(n > 0, QF(m, x, o, n) == QF(m, x, o, z3.simplify(n - 1)) + z3.RealVal("1/2") * x[z3.simplify(o + n - 1)] * MX(m, x, o, z3.simplify(n - 1)))])
QI = z3.Function("QI", Real, RA, Int, Int, Real)         # 1/2 r x'x over the first n entries
register_spec(QI, lambda r, x, o, n, depth=0: [] if depth else [Implies(n <= 0, QI(r, x, o, n) == 0), Implies(n > 0, QI(r, x, o, n) == QI(r, x, o, z3.simplify(n - 1)) + z3.RealVal("1/2") * x[z3.simplify(o + n - 1)] * r * x[z3.simplify(o + n - 1)])])
CNT = z3.Function("CNT", IA, Int, Int, Int, Int)         # how many of the first n entries equal t
register_spec(CNT, lambda a, o, t, n, depth=0: [] if depth else [Implies(n <= 0, CNT(a, o, t, n) == 0), Implies(n > 0, CNT(a, o, t, n) == CNT(a, o, t, z3.simplify(n - 1)) + If(a[z3.simplify(o + n - 1)] == t, z3.IntVal(1), z3.IntVal(0)))])
RN = z3.Function("RN", Int, Int, Real)
MROWS = z3.Function("MROWS", Int, Int)
one = z3.RealVal(1)
I = z3.IntVal


def setters(R):
    """vectors: given -> copied, absent -> infinite; single entries only within range"""
    vec = [("QProblemB::setLB", "lb", -INF, nV, False), ("QProblemB::setUB", "ub", INF, nV, False), ("QProblem::setLBA", "lbA", -INF, nC, True), ("QProblem::setUBA", "ubA", INF, nC, True)]

    def keep(c, f, but):
        """entries other than the given are unchanged"""
        n, o = getattr(c.new.this, f), getattr(me(c), f)
        return ("rest", forall(lambda k: Implies(Not(but(k)), n[k] == o[k]), pats=lambda k: [n[k]]))
    for q, f, d, n, con in vec:
        def post(c, f=f, d=d, n=n):
            a, v = c.old.argi(0), getattr(c.new.this, f)
            ok = nV(c) != 0
            return [("ret", c.ret == If(ok, I(0), I(c.E["RET_QPOBJECT_NOT_SETUP"]))),
                    ("value", Implies(ok, allin(0, n(c), lambda k: v[k] == If(a.null, d, a[k]), pats=lambda k: [v[k]]))), keep(c, f, lambda k: And(ok, rng(k, 0, n(c))))]
        R.add(q, sig="(const real_t", requires=lambda c, f=f, n=n, con=con: base(c, con, [f]) + [("arg", Implies(n(c) > 0, Or(c.old.argi(0).null, c.old.argi(0).size >= n(c))))],
              ensures=post, modifies=lambda c, f=f: arrmods(c, [f]), auto=False)

        def inv(c, f=f, d=d, n=n):
            v, o = getattr(c.new.this, f), getattr(me(c), f)
            return [("r", And(c.iv >= 0, c.iv <= n(c))), ("v", allin(0, c.iv, lambda k: v[k] == d, pats=lambda k: [v[k]])), ("o", forall(lambda k: Implies(Or(k < 0, k >= c.iv), v[k] == o[k]), pats=lambda k: [v[k]]))]
        R.loop(q, "0", inv)

        def post1(c, f=f, n=n):
            v, i = getattr(c.new.this, f), c.old.argi(0)
            ok = And(nV(c) != 0, rng(i, 0, n(c)))
            return [("ret", c.ret == If(nV(c) == 0, I(c.E["RET_QPOBJECT_NOT_SETUP"]), If(ok, I(0), I(c.E["RET_INDEX_OUT_OF_BOUNDS"])))), ("value", Implies(ok, v[i] == c.old.argi(1))), keep(c, f, lambda k: And(ok, k == i))]
        R.add(q, sig="(int_t, real_t", requires=lambda c, f=f, con=con: base(c, con, [f]), ensures=post1, modifies=lambda c, f=f: arrmods(c, [f]), auto=False)

    def postg(c):
        a, v = c.old.argi(0), c.new.this.g
        ok = And(nV(c) != 0, Not(a.null))
        return [("ret", c.ret == If(nV(c) == 0, I(c.E["RET_QPOBJECT_NOT_SETUP"]), If(a.null, I(c.E["RET_INVALID_ARGUMENTS"]), I(0)))), ("value", Implies(ok, allin(0, nV(c), lambda k: v[k] == a[k], pats=lambda k: [v[k]]))),
                keep(c, "g", lambda k: And(ok, rng(k, 0, nV(c))))]
    R.add("QProblemB::setG", requires=lambda c: base(c, False, ["g"]) + [("arg", Implies(nV(c) > 0, Or(c.old.argi(0).null, c.old.argi(0).size >= nV(c))))], ensures=postg, modifies=lambda c: arrmods(c, ["g"]), auto=False)


def classify(R):
    """types of bounds and constraints from their limits; consistency of limits"""
    E = lambda c, s: I(c.E[s])

    def ty(c, S, L, U, l0, u0, k, keepdis):
        """type of index k for new limits L,U (may be absent) and current limits l0,u0"""
        o = me(c).options
        t = o.boundTolerance
        unb = And(L[k] < -INF + t, U[k] > INF - t, o.enableFarBounds == E(c, "BT_FALSE")) if L is not None else None
        eq = And(o.enableEqualities != 0, l0[k] > u0[k] - t, L[k] > U[k] - t)
        r = If(And(Not(L.null), Not(U.null)), If(unb, E(c, "ST_UNBOUNDED"), If(eq, E(c, "ST_EQUALITY"), E(c, "ST_BOUNDED"))), If(And(L.null, U.null), E(c, "ST_UNBOUNDED"), E(c, "ST_BOUNDED")))
        return If(S.type[k] == E(c, "ST_DISABLED"), E(c, "ST_DISABLED"), r) if keepdis else r

    def none(c, p, n, sgn, hi=None):
        """no finite limit among the first hi"""
        k = var()
        return Or(p.null, allin(0, n if hi is None else hi, lambda k: Not(p[k] > -INF if sgn < 0 else p[k] < INF), pats=lambda k: [p[k]]))

    def some(c, p, n, sgn):
        k = var()
        return And(Not(p.null), z3.Exists([k], And(rng(k, 0, n), p[k] > -INF if sgn < 0 else p[k] < INF)))
    for con in (False, True):
        q = ("QProblem" if con else "QProblemB") + "::setupSubjectToType"
        parts = [(0, 1, "bounds", "lb", "ub", nV, False)] + ([(2, 3, "constraints", "lbA", "ubA", nC, True)] if con else [])

        def req(c, con=con, parts=parts):
            out = base(c, con, [f for p in parts for f in (p[3], p[4])])
            for a, b, S, l, u, n, dis in parts:
                for i in (a, b):
                    out.append(("arg%d" % i, Implies(n(c) > 0, Or(c.old.argi(i).null, c.old.argi(i).size >= n(c)))))
            return out

        def post(c, con=con, parts=parts):
            out = [("ret", c.ret == 0)]
            for a, b, s, l, u, n, dis in parts:
                S0, S1 = getattr(me(c), s), getattr(c.new.this, s)
                L, U = c.old.argi(a), c.old.argi(b)
                out.append((s + "-type", allin(0, n(c), lambda k: S1.type[k] == ty(c, S0, L, U, getattr(me(c), l), getattr(me(c), u), k, dis), pats=lambda k: [S1.type[k]])))
                for fl, p, sg in (("noLower", L, -1), ("noUpper", U, 1)):
                    v = getattr(S1, fl)
                    out += [("%s-%s" % (s, fl), Or(v == 0, v == 1)), ("%s-%s-yes" % (s, fl), Implies(v == 1, none(c, p, n(c), sg))), ("%s-%s-no" % (s, fl), Implies(v == 0, some(c, p, n(c), sg)))]
            return out

        def mods(c, parts=parts):
            return [x for p in parts for S in [getattr(me(c), p[2])] for x in marr(S.type) + [mfield(S, "noLower"), mfield(S, "noUpper")]]
        R.add(q, sig="(const real_t", variant=None, requires=req, ensures=post, modifies=mods, auto=False)
        a, b, s, l, u, n, dis = parts[-1]
        r = lambda c, n=n: ("r", rng(c.iv, 0, n(c) + 1))

        def scan(sg, s=s, i=None, n=n):
            return lambda c: [("r", rng(c.iv, 0, n(c) + 1)), ("flag", getattr(getattr(c.new.this, s), "noLower" if sg < 0 else "noUpper") == 1), ("none", none(c, c.old.argi(i), n(c), sg, c.iv))]

        def fill(c, s=s, a=a, b=b, l=l, u=u, n=n, dis=dis):
            S0, S1 = getattr(me(c), s), getattr(c.new.this, s)
            L, U = c.old.argi(a), c.old.argi(b)
            return [("r", rng(c.iv, 0, n(c) + 1)), ("t", allin(0, n(c), lambda k: S1.type[k] == If(k < c.iv, ty(c, S0, L, U, getattr(me(c), l), getattr(me(c), u), k, dis), S0.type[k]), pats=lambda k: [S1.type[k]]))]
        R.loop(q, "0", scan(-1, i=a))
        R.loop(q, "1", scan(1, i=b))
        for j in ("2", "3", "4"):
            R.loop(q, j, fill)

        # consistency
        q = ("QProblem" if con else "QProblemB") + "::areBoundsConsistent"
        crossed = lambda L, U, k: L[k] > U[k] + z3.RealVal("2.221e-16")

        def cpost(c, parts=parts):
            out = []
            bad = []
            for a, b, s, l, u, n, dis in parts:
                L, U = c.old.argi(a), c.old.argi(b)
                g = And(Not(L.null), Not(U.null))
                k = var()
                bad.append(And(g, z3.Exists([k], And(rng(k, 0, n(c)), crossed(L, U, k)))))
                out.append(("accepted-" + s, Implies(And(c.ret == 0, g), allin(0, n(c), lambda k: Not(crossed(L, U, k)), pats=lambda k: [L[k]]))))
            return [("ret", Or(c.ret == 0, c.ret == c.E["RET_QP_INFEASIBLE"])), ("rejected", Implies(c.ret != 0, Or(*bad)))] + out
        R.add(q, requires=req, ensures=cpost, modifies=lambda c: [], auto=False)

        def cinv(c, a=a, b=b, n=n):
            L, U = c.old.argi(a), c.old.argi(b)
            return [("r", rng(c.iv, 0, n(c) + 1)), ("ok", allin(0, c.iv, lambda k: Not(crossed(L, U, k)), pats=lambda k: [L[k]]))]
        R.loop(q, "0", cinv)
    # active and inactive limits at the beginning of a homotopy
    q = "QProblemB::adaptImplicitEqualities"
    S = lambda c: c.old.argi(0).obj
    S1 = lambda c: c.new.argi(0).obj
    A = lambda c, i: c.old.argi(i)

    def areq(c):
        s, n = S(c), A(c, 1)
        return [("n", And(n >= 0, Not(A(c, 0).null), s.n == n)), ("subj", Implies(n > 0, And(Not(s.type.null), Not(s.status.null), s.type.size >= n, s.status.size >= n)))] + [("a%d" % i, arrs(A(c, i), n)) for i in (2, 3, 4)]

    def adapted(c, k):
        """(type, status) of index k afterwards"""
        s, lo, up, mu = S(c), A(c, 2), A(c, 3), A(c, 4)
        eq = s.type[k] == E(c, "ST_EQUALITY")
        t = If(And(eq, s.status[k] == E(c, "ST_INACTIVE")), E(c, "ST_BOUNDED"), s.type[k])
        tight = And(Not(eq), lo[k] > up[k] - me(c).options.boundTolerance)
        st = If(And(tight, s.status[k] == E(c, "ST_LOWER"), mu[k] < 0), E(c, "ST_UPPER"), If(And(tight, s.status[k] == E(c, "ST_UPPER"), mu[k] > 0), E(c, "ST_LOWER"), s.status[k]))
        return t, st

    def aposts(c, hi):
        s, z = S(c), S1(c)
        return [("type", forall(lambda k: z.type[k] == If(rng(k, 0, hi), adapted(c, k)[0], s.type[k]), pats=lambda k: [z.type[k]])),
                ("status", forall(lambda k: z.status[k] == If(rng(k, 0, hi), adapted(c, k)[1], s.status[k]), pats=lambda k: [z.status[k]]))]
    R.add(q, only_variant=True, requires=areq, ensures=lambda c: [("ret", c.ret == 0)] + aposts(c, A(c, 1)), modifies=lambda c: marr(S(c).type) + marr(S(c).status), auto=False)
    R.loop(q, "0", lambda c: [("r", rng(c.iv, 0, A(c, 1) + 1))] + aposts(c, c.iv))
    R.add("QProblemB::setInfeasibilityFlag", ensures=lambda c: [("ret", c.ret == c.old.argi(0)), ("flag", c.new.this.infeasible == 1)], modifies=lambda c: [mfield(c.old.this, "infeasible")])


def queries(R):
    ok = lambda c: Or(*[me(c).status == c.E[s] for s in SOLVED])
    need = lambda c, n: [("out", arrs(c.old.argi(0), n))]

    def sol(c, f, n, always=False):
        p, v = c.new.argi(0), getattr(me(c), f)
        g = T if always else ok(c)
        return [("ret", c.ret == If(ok(c), I(0), I(c.E["RET_QP_NOT_SOLVED"]))), ("value", Implies(g, allin(0, n, lambda k: p[k] == v[k], pats=lambda k: [p[k]]))),
                ("rest", forall(lambda k: Implies(Not(And(g, rng(k, 0, n))), p[k] == c.old.argi(0)[k]), pats=lambda k: [p[k]]))]

    def copy(c, f, n):
        p, v = c.new.argi(0), getattr(me(c), f)
        return [("r", rng(c.iv, 0, n + 1)), ("v", allin(0, c.iv, lambda k: p[k] == v[k], pats=lambda k: [p[k]])), ("rest", forall(lambda k: Implies(Not(rng(k, 0, c.iv)), p[k] == c.old.argi(0)[k]), pats=lambda k: [p[k]]))]
    tot = lambda c: nV(c) + nC(c)
    for q, f, n, con, al in (("QProblemB::getPrimalSolution", "x", nV, False, False), ("QProblemB::getDualSolution", "y", nV, False, True), ("QProblem::getDualSolution", "y", tot, True, True)):
        R.add(q, only_variant=True, requires=lambda c, f=f, n=n, con=con: base(c, con, [f]) + need(c, n(c)), ensures=lambda c, f=f, n=n, al=al: sol(c, f, n(c), al), modifies=lambda c: marr(c.old.argi(0)), auto=False)
        R.loop(q, "0", lambda c, f=f, n=n: copy(c, f, n(c)))

    def terms(c, x):
        m = me(c)
        E = c.E
        n = nV(c)
        quad = If(m.hessianType == E["HST_ZERO"], z0, If(m.hessianType == E["HST_IDENTITY"], QI(one, x.arr, x.off, n), QF(mid(m.H.obj), x.arr, x.off, n)))
        reg = If(And(m.regVal > ZERO, m.hessianType != E["HST_ZERO"]), QI(m.regVal, x.arr, x.off, n), z0)
        return lin(c, x, n), quad, reg
    lin = lambda c, x, n: DOT(one, x.arr, x.off, I(1), me(c).g.arr, me(c).g.off, I(1), n)
    q = "QProblemB::getObjVal"
    quadr = lambda c: And(me(c).hessianType != c.E["HST_ZERO"], me(c).hessianType != c.E["HST_IDENTITY"])
    R.add(q, sig="(const real_t", requires=lambda c: base(c, False, ["g"]) + [("x", arrs(c.old.argi(0), nV(c))), ("H", Implies(quadr(c), Not(me(c).H.null)))],
          ensures=lambda c: [("value", c.ret == (lambda t: If(nV(c) == 0, z0, t[0] + t[1] - t[2]))(terms(c, c.old.argi(0))))], modifies=lambda c: [], auto=False)
    X = lambda c: c.old.argi(0)
    r = lambda c: ("r", rng(c.iv, 0, nV(c) + 1))
    R.loop(q, "0", lambda c: [r(c), ("v", c.v("objVal") == lin(c, X(c), c.iv))])
    R.loop(q, "1", lambda c: [r(c), ("v", c.v("objVal") == lin(c, X(c), nV(c)) + QI(one, X(c).arr, X(c).off, c.iv))])
    R.loop(q, "2", lambda c: [r(c), ("v", c.v("objVal") == lin(c, X(c), nV(c)) + QF(mid(me(c).H.obj), X(c).arr, X(c).off, c.iv))])
    R.loop(q, "3", lambda c: [r(c), ("v", c.v("objVal") == terms(c, X(c))[0] + terms(c, X(c))[1] - QI(me(c).regVal, X(c).arr, X(c).off, c.iv))])
    R.add(q, sig="real_t () const", requires=lambda c: base(c, False, ["g", "x"]) + [("H", Implies(quadr(c), Not(me(c).H.null)))],
          ensures=lambda c: [("value", c.ret == If(ok(c), (lambda t: If(nV(c) == 0, z0, t[0] + t[1] - t[2]))(terms(c, me(c).x)), INF))], modifies=lambda c: [], auto=False)
    # counts and flags
    L = lambda x: x.length
    B, C = (lambda c: me(c).bounds), (lambda c: me(c).constraints)
    def ctype(c, S, t, n):
        return None
    simple = [("QProblemB::getNV", lambda c: nV(c)), ("QProblemB::getNFR", lambda c: B(c).freee.length), ("QProblemB::getNFX", lambda c: B(c).fixed.length), ("QProblem::getNC", lambda c: nC(c)),
              ("QProblem::getNAC", lambda c: C(c).active.length), ("QProblem::getNIAC", lambda c: C(c).inactive.length), ("QProblem::getNZ", lambda c: B(c).freee.length - C(c).active.length), ("QProblemB::getNZ", lambda c: B(c).freee.length),
              ("QProblemB::getStatus", lambda c: me(c).status), ("QProblemB::isInitialised", lambda c: If(me(c).status == c.E["QPS_NOTINITIALISED"], I(0), I(1))), ("QProblemB::isSolved", lambda c: If(me(c).status == c.E["QPS_SOLVED"], I(1), I(0))),
              ("QProblemB::isInfeasible", lambda c: me(c).infeasible), ("QProblemB::isUnbounded", lambda c: me(c).unbounded), ("QProblemB::getHessianType", lambda c: me(c).hessianType), ("QProblemB::getCount", lambda c: me(c).count)]
    for q, v in simple:
        R.add(q, only_variant=True, ensures=lambda c, v=v: [("value", c.ret == v(c))], modifies=lambda c: [])
    R.add("SubjectTo::getNumberOfType", pure=True, requires=lambda c: [("t", And(c.old.this.n >= 0, Implies(c.old.this.n > 0, And(Not(c.old.this.type.null), c.old.this.type.size >= c.old.this.n))))],
          ensures=lambda c: [("value", c.ret == CNT(c.old.this.type.arr, c.old.this.type.off, c.old.argi(0), c.old.this.n))] if c.old.this.type.p.nonnull() else [], modifies=lambda c: [])
    R.loop("SubjectTo::getNumberOfType", "0")(lambda c: [("r", rng(c.iv, 0, c.old.this.n + 1)), ("v", c.v("numberOfType") == CNT(c.old.this.type.arr, c.old.this.type.off, c.old.argi(0), c.iv))])
    for q, S, t, con in (("Bounds::getNFV", None, "ST_EQUALITY", False), ("Bounds::getNBV", None, "ST_BOUNDED", False), ("Bounds::getNUV", None, "ST_UNBOUNDED", False),
                         ("Constraints::getNEC", None, "ST_EQUALITY", False), ("Constraints::getNIC", None, "ST_BOUNDED", False), ("Constraints::getNUC", None, "ST_UNBOUNDED", False),
                         ("QProblemB::getNFV", B, "ST_EQUALITY", False), ("QProblem::getNEC", C, "ST_EQUALITY", True)):
        sub = S or me
        R.add(q, only_variant=True, requires=lambda c, S=S, con=con, sub=sub: base(c, con, []) if S else [("t", And(sub(c).n >= 0, Implies(sub(c).n > 0, And(Not(sub(c).type.null), sub(c).type.size >= sub(c).n))))],
              ensures=lambda c, sub=sub, t=t: [("value", c.ret == CNT(sub(c).type.arr, sub(c).type.off, I(c.E[t]), sub(c).n))], modifies=lambda c: [])
    R.add("QProblemB::setHessianType", only_variant=True, ensures=lambda c: [("ret", c.ret == 0), ("value", c.new.this.hessianType == c.old.argi(0))], modifies=lambda c: [mfield(c.old.this, "hessianType")])
    R.add("QProblemB::resetCounter", only_variant=True, ensures=lambda c: [("ret", c.ret == 0), ("value", c.new.this.count == 0)], modifies=lambda c: [mfield(c.old.this, "count")])


def matrixdata(R):
    """setH, setA, setupQPdata: stored pointers, products and slacks; everything the solver starts from"""
    def rn(c):
        p, q = c.old.argi(0), c.new.argi(0)
        return [("ret", c.ret == 0), ("v", forall(lambda k: q[k] == If(rng(k, 0, MROWS(mid(me(c)))), RN(mid(me(c)), k), p[k]), pats=lambda k: [q[k]]))]
    R.add("Matrix::getRowNorm", requires=lambda c: [("two", c.old.argi(1) == 2), ("norm", arrs(c.old.argi(0), MROWS(mid(me(c)))))], ensures=rn, modifies=lambda c: marr(c.old.argi(0)),
          trusted="abstract matrix interface; the implementations are proved to do this by C03 and C04")
    q = "QProblem::setA"
    A = lambda c: c.old.argi(0).obj

    def slack(c, hi):
        n = c.new.this
        ax = lambda k: MX(mid(A(c)), me(c).x.arr, me(c).x.off, k)
        out = [("Ax", allin(0, nC(c), lambda k: n.Ax[k] == ax(k), pats=lambda k: [n.Ax[k]]))]
        out.append(("Ax_l", allin(0, hi, lambda k: n.Ax_l[k] == n.Ax[k] - n.lbA[k], pats=lambda k: [n.Ax_l[k]])))
        out.append(("Ax_u", allin(0, hi, lambda k: n.Ax_u[k] == n.ubA[k] - n.Ax[k], pats=lambda k: [n.Ax_u[k]])))
        out.append(("disabled", allin(0, nC(c), lambda k: n.constraints.type[k] == If(And(k < hi, RN(mid(A(c)), k) <= ZERO, RN(mid(A(c)), k) >= -ZERO), I(c.E["ST_DISABLED"]), me(c).constraints.type[k]), pats=lambda k: [n.constraints.type[k]])))
        return out
    need = ["x", "lbA", "ubA", "Ax", "Ax_l", "Ax_u"]
    good = lambda c: And(nV(c) != 0, Not(c.old.argi(0).null))
    R.add(q, sig="(Matrix *", requires=lambda c: base(c, True, need) + [("tmp", arrs(me(c).tempC, nC(c))), ("size", MROWS(mid(A(c))) == nC(c)), ("old", me(c).freeConstraintMatrix != 1)],
          ensures=lambda c: [("ret", c.ret == If(nV(c) == 0, I(c.E["RET_QPOBJECT_NOT_SETUP"]), If(c.old.argi(0).null, I(c.E["RET_INVALID_ARGUMENTS"]), I(0))))] + [(nm, Implies(good(c), f)) for nm, f in slack(c, nC(c))]
          + [("stored", Implies(good(c), And(Not(c.new.this.A.null), c.new.this.freeConstraintMatrix == 0)))],
          modifies=lambda c: arrmods(c, ["Ax", "Ax_l", "Ax_u", "tempC"]) + marr(me(c).constraints.type) + [mfield(me(c), "freeConstraintMatrix"), mfield(me(c), "A")], auto=False)
    R.loop(q, "0", lambda c: [("r", rng(c.iv, 0, nC(c) + 1))] + slack(c, c.iv))


def setup(R):
    matrices(R)
    setters(R)
    matrixdata(R)
    classify(R)
    queries(R)
    return R
