"""C08: the KKT violation metric (Utils.cpp getKktViolation, SolutionAnalysis::getKktViolation) and the exported working sets."""
from qpv.dsl import *
from contracts.homotopy import base, arrs, mid, me, z0

TOLD = z3.RealVal("1e3") * z3.RealVal("2.221e-16")
MFULL = z3.Function("MFULL", Int, Int, Real)          # entry k of the dense copy of (matrix id)
isz = lambda x: absr(x) <= ZERO                       # isEqual with its default tolerance


class Data:
    """the QP the violation is computed for; every vector may be absent"""
    def __init__(self, c, args, nV, nC, ident):
        args = [p if p is not None and p.p.nonnull() else None for p in args]
        self.H, self.g, self.A, self.lb, self.ub, self.lbA, self.ubA, self.x, self.y, self.wB, self.wC = args
        self.nV, self.nC, self.ident, self.c = nV, nC, ident, c

    def g_(self, k):
        return (If(self.g.null, z0, self.g[k]) if self.g is not None else z0) - self.y[k]

    def h(self, k, n):
        H = self.H
        if H is None:
            return z0
        full = DOT(z3.RealVal(1), H.arr, H.off + imul(k, self.nV), z3.IntVal(1), self.x.arr, self.x.off, z3.IntVal(1), n)
        return If(H.null, z0, full)

    def eye(self, k):
        return If(And(self.H.null if self.H is not None else T, self.ident), self.x[k], z0)

    def a(self, k, n):
        if self.A is None:
            return z0
        A, y = self.A, self.y
        return If(A.null, z0, DOT(z3.RealVal(-1), A.arr, A.off + k, self.nV, y.arr, y.off + self.nV, z3.IntVal(1), n))

    def res(self, k):
        return self.g_(k) + self.h(k, self.nV) + self.eye(k) + self.a(k, self.nC)

    def ax(self, k, n=None):
        return z0 if self.A is None else If(self.A.null, z0, self.dot(k, n))

    def dot(self, k, n=None):
        A, x = self.A, self.x
        return (DOT(z3.RealVal(1), A.arr, A.off + imul(k, self.nV), z3.IntVal(1), x.arr, x.off, z3.IntVal(1), self.nV if n is None else n))

    def prod(self, k, con, val=None):
        v = (z0 if val is None else val) if con else self.x[k]
        lo, up, w = (self.lbA, self.ubA, self.wC) if con else (self.lb, self.ub, self.wB)
        yk = self.y[self.nV + k] if con else self.y[k]
        atl = If(w.null, yk > TOLD, isz(w[k] + 1)) if w is not None else yk > TOLD
        atu = If(w.null, yk < -TOLD, isz(w[k] - 1)) if w is not None else yk < -TOLD
        if con and self.A is not None and val is None:
            return If(self.A.null, self.prod(k, con, z0), self.prod(k, con, self.dot(k)))
        r = z0
        if lo is not None:
            r = If(And(Not(lo.null), atl), rmul(v - lo[k], yk), r)
        if up is not None:
            r = If(And(Not(up.null), atu), rmul(v - up[k], yk), r)
        return r

    def gaps(self, con):
        lo, up = (self.lbA, self.ubA) if con else (self.lb, self.ub)
        v = self.ax if con else (lambda k: self.x[k])
        return ([(lambda k: lo[k] - v(k), Not(lo.null))] if lo is not None else []) + ([(lambda k: v(k) - up[k], Not(up.null))] if up is not None else [])


def largest(nm, val, groups, pat):
    """val is the largest of 0 and the listed quantities: groups [(lambda k: value, condition, how many)]"""
    out = [(nm + "-nonneg", val >= 0)]
    att = [val == 0]
    for j, (f, cnd, hi) in enumerate(groups):
        out.append(("%s-covers%d" % (nm, j), Implies(cnd, allin(0, hi, lambda k: f(k) <= val, pats=lambda k: [pat(k, j)]))))
        k = var()
        att.append(And(cnd, z3.Exists([k], And(rng(k, 0, hi), val == f(k)))))
    return out + [(nm + "-attained", Or(*att))]


def metric(c, D, st, fe, cm, hs=None):
    """postcondition / invariant; hs = how far each of (stationarity, bounds feasibility, bounds complementarity, constraints) got"""
    hs = hs or (D.nV, D.nV, D.nV, D.nC)
    yk = lambda k, j=0: D.y[k]
    out = []
    if st is not None:
        out += largest("stat", st, [(lambda k: absr(D.res(k)), T, hs[0])], yk)
    if fe is not None:
        G = [(f, cnd, hs[1]) for f, cnd in D.gaps(False)]
        if not (z3.is_int_value(D.nC) and D.nC.as_long() == 0):
            G += [(f, cnd, hs[3]) for f, cnd in D.gaps(True)]
        out += largest("feas", fe, G, lambda k, j: D.x[k] if j < 2 else D.y[D.nV + k])
    if cm is not None:
        G = [(lambda k: absr(D.prod(k, False)), T, hs[2])]
        if not (z3.is_int_value(D.nC) and D.nC.as_long() == 0):
            G += [(lambda k: absr(D.prod(k, True)), T, hs[3])]
        out += largest("cmpl", cm, G, lambda k, j: D.y[k] if j == 0 else D.y[D.nV + k])
    return out


SIG1 = "(int_t, int_t, const real_t"
SIG2 = "(int_t, const real_t"


def free(R):
    q = "getKktViolation"

    def data(c, con=True):
        a = c.old.argi
        if con:
            return Data(c, [a(i) for i in (2, 3, 4, 5, 6, 7, 8, 9, 10, 14, 15)], a(0), a(1), a(16) == c.E["BT_TRUE"])
        return Data(c, [a(1), a(2), None, a(3), a(4), None, None, a(5), a(6), a(10), None], a(0), z3.IntVal(0), a(11) == c.E["BT_TRUE"])

    def req(c, con=True):
        D = data(c, con)
        out = [("n", And(D.nV >= 0, D.nC >= 0))]
        opt = lambda p, n: T if p is None else Implies(n > 0, Or(p.null, p.size >= n))
        out += [("x", arrs(D.x, D.nV)), ("y", arrs(D.y, D.nV + D.nC))]
        out += [("H", opt(D.H, imul(D.nV, D.nV))), ("g", opt(D.g, D.nV)), ("lb", opt(D.lb, D.nV)), ("ub", opt(D.ub, D.nV)), ("wB", opt(D.wB, D.nV))]
        if con:
            out += [("A", opt(D.A, imul(D.nC, D.nV))), ("lbA", opt(D.lbA, D.nC)), ("ubA", opt(D.ubA, D.nC)), ("wC", opt(D.wC, D.nC))]
        return out
    o = {True: 11, False: 7}
    def given(i, yes):
        """argument i is null / is not null"""
        def f(ex, argd):
            k = list(argd)[i]
            kind, v, ty = argd[k]
            v = ex.env.init((k,), ty)
            argd[k] = (kind, Ptr([(T, t) for cnd, t in v.nonnull()]) if yes else Ptr([(T, None)]), ty)
        return f
    kw = lambda con: dict(requires=lambda c: req(c, con), ensures=lambda c: [("ret", c.ret == 0)] + metric(c, data(c, con), *[c.new.argi(o[con] + i) for i in range(3)]),
                          modifies=lambda c: [mref(c.old, n) for n in ("stat", "feas", "cmpl")], auto=False, opaque_mul=True)
    R.add(q, sig=SIG1, variant="A", only_variant=True, setup=given(4, True), **kw(True))
    R.add(q, sig=SIG1, variant="noA", only_variant=True, setup=given(4, False), **kw(True))
    R.add(q, sig=SIG1, only_call=True, **kw(True))
    R.add(q, sig=SIG2, **kw(False))
    val = lambda c: [c.new.argi(11 + i) for i in range(3)]
    zero = z3.IntVal(0)

    def inv(c, a=None, f=None, b=None, k=None):
        """what holds after the given numbers of finished iterations"""
        s, fe, cm = val(c)
        D = data(c)
        return metric(c, D, s, fe, cm, tuple(zero if v is None else v for v in (a, f, b, k)))
    r = lambda c, n: ("r", rng(c.iv, 0, n + 1))
    N = lambda c: c.old.argi(0)
    M = lambda c: c.old.argi(1)
    see = lambda c, con: [("see", absr(data(c).prod(c.iv, con)) >= 0)]
    first = lambda c: [("z", And(val(c)[1] == 0, val(c)[2] == 0))]
    R.loop(q, "0", lambda c: [r(c, N(c))] + inv(c, a=c.iv) + first(c))
    R.loop(q, "0.0", lambda c: [r(c, N(c)), ("sum", c.v("sum") == data(c).g_(c.v("i")) + data(c).h(c.v("i"), c.iv))])
    R.loop(q, "0.1", lambda c: [r(c, M(c)), ("sum", c.v("sum") == data(c).g_(c.v("i")) + data(c).h(c.v("i"), N(c)) + data(c).eye(c.v("i")) + data(c).a(c.v("i"), c.iv))])
    R.loop(q, "1", lambda c: [r(c, N(c))] + inv(c, N(c), c.iv) + first(c)[1:] + [("z", val(c)[2] == 0)])
    R.loop(q, "2", lambda c: [r(c, N(c))] + inv(c, N(c), N(c), c.iv) + see(c, False))
    R.loop(q, "3", lambda c: [r(c, N(c))] + inv(c, N(c), N(c), c.iv) + see(c, False))
    R.loop(q, "4", lambda c: [r(c, M(c))] + inv(c, N(c), N(c), N(c), c.iv) + see(c, True))
    R.loop(q, "4.0", lambda c: [r(c, N(c)), ("sum", c.v("sum") == data(c).dot(c.v("i"), c.iv))])


def wset(R):
    """exported working sets"""
    def post(c, S, p, off=0, hi=None, body=False):
        E = c.E
        w = lambda k: If(S.status[k] == E["ST_LOWER"], z3.RealVal(-1), If(S.status[k] == E["ST_UPPER"], z3.RealVal(1), z0))
        return allin(0, S.n if hi is None else hi, lambda k: p[off + k] == w(k), pats=lambda k: [p[off + k], S.status[k]])
    ret = lambda c: ("ret", c.ret == If(c.old.argi(0).null, z3.IntVal(c.E["RET_INVALID_ARGUMENTS"]), z3.IntVal(0)))
    need = lambda c, n: [("w", Implies(n > 0, Or(c.old.argi(0).null, c.old.argi(0).size >= n)))]
    B = lambda c: me(c).bounds
    C = lambda c: me(c).constraints
    nn = lambda c, con, n: base(c, con, []) + need(c, n)
    rest = lambda c, n: ("rest", some(c, forall(lambda k: Implies(Not(rng(k - c.old.argi(0).off, 0, n)), c.new.argi(0).arr[k] == c.old.argi(0).arr[k]), pats=lambda k: [c.new.argi(0).arr[k]])))
    some = lambda c, f: Implies(Not(c.old.argi(0).null), f)
    out = lambda c: marr(c.old.argi(0))
    for cls, con in (("QProblemB", False), ("QProblem", True)):
        q = cls + "::getWorkingSetBounds"
        R.add(q, only_variant=True, requires=lambda c, con=con: nn(c, con, B(c).n), ensures=lambda c: [ret(c), rest(c, B(c).n), ("w", some(c, post(c, B(c), c.new.argi(0))))], modifies=out, auto=False)
        if not con:
            R.loop(q, "0", lambda c: [("r", rng(c.iv, 0, B(c).n + 1)), ("w", post(c, B(c), c.new.argi(0), 0, c.iv)), rest(c, B(c).n)])
    q = "QProblem::getWorkingSetConstraints"
    R.add(q, only_variant=True, requires=lambda c: nn(c, True, C(c).n), ensures=lambda c: [ret(c), rest(c, C(c).n), ("w", some(c, post(c, C(c), c.new.argi(0))))], modifies=out, auto=False)
    R.loop(q, "0", lambda c: [("r", rng(c.iv, 0, C(c).n + 1)), ("w", post(c, C(c), c.new.argi(0), 0, c.iv)), rest(c, C(c).n)])
    R.add("QProblemB::getWorkingSetConstraints", only_variant=True, requires=lambda c: base(c, False, []), ensures=lambda c: [ret(c)], modifies=lambda c: [])
    R.add("QProblemB::getWorkingSet", only_variant=True, requires=lambda c: nn(c, False, B(c).n), ensures=lambda c: [ret(c), ("w", some(c, post(c, B(c), c.new.argi(0))))], modifies=out, auto=False)
    R.add("QProblem::getWorkingSet", only_variant=True, requires=lambda c: nn(c, True, B(c).n + C(c).n),
          ensures=lambda c: [ret(c), ("bounds", some(c, post(c, B(c), c.new.argi(0)))), ("constraints", some(c, post(c, C(c), c.new.argi(0), B(c).n)))], modifies=out, auto=False)


def analysis(R):
    """SolutionAnalysis: the metric applied to the data stored in the solver object"""
    def newarr(c):
        ex = c.ex
        ex.nnew += 1
        block = ("new%d" % ex.nnew, "*")
        ex.env.sizes[block] = ex.fresh("newsize", Int)
        st = c.new._st
        st.arrs[block] = ex.fresh("newarr", RA)
        st.dead[block] = F
        ex.newblocks.add(block)
        return Ptr([(T, Arr(block, z3.IntVal(0)))])

    def fullpost(c):
        m, n = me(c), c.ret
        return [("size", And(n.size == imul(MROWS(mid(m)), MCOLS(mid(m))), n.size >= 0)), ("val", forall(lambda k: n[k] == MFULL(mid(m), k), pats=lambda k: [n[k]]))]
    R.add("Matrix::full", requires=lambda c: [], ensures=fullpost, result=newarr, modifies=lambda c: [], trusted="abstract matrix interface; the implementations are proved to do this by C03 and C04")

    for con in (False, True):
        q = "SolutionAnalysis::getKktViolation"

        def cls(c):
            return c.old.argi(0).obj

        def req(c, con=con):
            qp = c.old.argi(0)
            o = qp.obj
            n, k = o.bounds.n, (o.constraints.n if con else z3.IntVal(0))
            ok = [("n", And(n >= 0, k >= 0))]
            for S in [o.bounds] + ([o.constraints] if con else []):
                ok.append(("subj", Implies(S.n > 0, And(Not(S.type.null), Not(S.status.null), S.type.size >= S.n, S.status.size >= S.n))))
            for f, m in [("x", n), ("g", n), ("lb", n), ("ub", n), ("y", n + k)] + ([("lbA", k), ("ubA", k)] if con else []):
                ok.append((f, arrs(getattr(o, f), m)))
            quad = And(o.hessianType != c.E["HST_ZERO"], o.hessianType != c.E["HST_IDENTITY"])
            h = mid(o.H.obj)
            ok.append(("H", Implies(quad, And(Not(o.H.null), MROWS(h) == n, MCOLS(h) == n))))
            if con:
                a = mid(o.A.obj)
                ok.append(("A", And(Not(o.A.null), MROWS(a) == k, MCOLS(a) == n)))
            return [(nm, Implies(Not(qp.null), f)) for nm, f in ok] + [("out%d" % i, Or(c.old.argi(i).null, c.old.argi(i).size >= 1)) for i in (1, 2, 3)]

        def post(c, con=con):
            qp = c.old.argi(0)
            n3 = [c.new.argi(i) for i in (1, 2, 3)]
            out = [("no-object", Implies(qp.null, c.ret == z3.RealVal("1e20")))]
            if "H_ptr" not in c.frame.names or "workingSetB" not in c.frame.names:
                return out
            o = qp.obj
            n, k = o.bounds.n, (o.constraints.n if con else z3.IntVal(0))
            stat, feas, cmpl = [c.v(x) for x in ("stat", "feas", "cmpl")]
            H, wB, h = c.v("H_ptr"), c.v("workingSetB"), mid(o.H.obj)
            E = c.E
            quad = And(o.hessianType != E["HST_ZERO"], o.hessianType != E["HST_IDENTITY"])
            D = Data(c, [H, o.g, c.v("A_ptr") if con else None, o.lb, o.ub, o.lbA if con else None, o.ubA if con else None, o.x, o.y, wB, c.v("workingSetC") if con else None],
                     n, k, o.hessianType == E["HST_IDENTITY"])
            ws = lambda S, k: If(S.status[k] == E["ST_LOWER"], z3.RealVal(-1), If(S.status[k] == E["ST_UPPER"], z3.RealVal(1), z0))
            body = [("H-null", H.null == Not(quad)),
                    ("H-diagonal", Implies(quad, allin(0, n, lambda j: H[imul(j, n) + j] == MFULL(h, imul(j, n) + j) - If(o.regVal > ZERO, o.regVal, z0), pats=lambda j: [imul(j, n)]))),
                    ("H-rest", Implies(quad, forall(lambda i, j: Implies(And(rng(i, 0, n), rng(j, 0, n), i != j), H[imul(i, n) + j] == MFULL(h, imul(i, n) + j)), 2, pats=lambda i, j: [H[imul(i, n) + j]]))),
                    ("w", allin(0, n, lambda j: wB[j] == ws(o.bounds, j), pats=lambda j: [wB[j]]))]
            if con:
                A, wC = c.v("A_ptr"), c.v("workingSetC")
                body += [("A", forall(lambda j: A[j] == MFULL(mid(o.A.obj), j), pats=lambda j: [A[j]])), ("wC", allin(0, k, lambda j: wC[j] == ws(o.constraints, j), pats=lambda j: [wC[j]]))]
            body += metric(c, D, stat, feas, cmpl)
            mx = lambda a, b: If(a >= b, a, b)
            body.append(("value", c.ret == mx(mx(stat, feas), cmpl)))
            for i, v in ((1, stat), (2, feas), (3, cmpl)):
                body.append(("out%d" % i, Implies(Not(c.old.argi(i).null), c.new.argi(i)[0] == v)))
            return out + [(nm, Implies(Not(qp.null), f)) for nm, f in body]
        R.add(q, sig="(QProblem *const" if con else "(QProblemB *const", only_variant=True, requires=req, ensures=post, modifies=lambda c: [x for i in (1, 2, 3) for x in marr(c.old.argi(i))], auto=False, opaque_mul=True)
        def rows(c):
            n, H = cls(c).bounds.n, c.v("H_ptr")
            o = cls(c)
            d = lambda p: MFULL(mid(o.H.obj), p)
            return [("r", rng(c.iv, 0, n + 1)), ("diag", allin(0, c.iv, lambda j: H[imul(j, n) + j] == d(imul(j, n) + j) - o.regVal, pats=lambda j: [imul(j, n)])),
                    ("rest", forall(lambda i, j: Implies(And(rng(i, 0, n), rng(j, 0, n), Or(i != j, i >= c.iv)), H[imul(i, n) + j] == d(imul(i, n) + j)), 2, pats=lambda i, j: [H[imul(i, n) + j]]))]
        R.loop(q, "0", rows)
    return R


MROWS = z3.Function("MROWS", Int, Int)
MCOLS = z3.Function("MCOLS", Int, Int)


def setup(R):
    free(R)
    wset(R)
    analysis(R)
    return R
