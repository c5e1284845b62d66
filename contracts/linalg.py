"""C05: factorisation kernels: Cholesky, triangular solves, plane rotations, initial TQ factors."""
from qpv.dsl import *

one = z3.RealVal(1)
i1 = z3.IntVal(1)
m1 = z3.IntVal(-1)


def sq(p, n):
    """p points to an array with room for n x n entries"""
    return Implies(n > 0, And(Not(p.null), p.off == 0, p.size >= imul(n, n)))


def vec(p, n):
    return Implies(n > 0, And(Not(p.null), p.off == 0, p.size >= n))


def alias(a, b):
    """parameter b is the same pointer as parameter a"""
    def f(ex, argd):
        k, v, ty = argd[a]
        v = ex.env.init((a,), ty) if v is None else v
        argd[a] = (k, v, ty)
        argd[b] = (k, v, argd[b][2])
    return f


def potrf(R, name):
    g = lambda s, i: s.argi(i)[0]

    def D(c):
        return g(c.old, 1), g(c.old, 3), c.old.argi(2), c.new.argi(2)

    def ent(A, p, lda):
        """what U'U gives at place p (row <= column) for the factor U stored in A"""
        i, j = rowof(p, lda), colof(p, lda)
        return DOT(one, A.arr, imul(lda, i), i1, A.arr, imul(lda, j), i1, i) + A[imul(lda, i) + i] * A[p]

    def eqn(A, p, lda, b):
        i = rowof(p, lda)
        d = imul(lda, i) + i
        return And(ent(A, p, lda) == b, rowof(d, lda) == i, colof(d, lda) == i)      # the latter two stop a matching loop

    def tri(p, n, lda):
        return And(p >= 0, rowof(p, lda) <= colof(p, lda), colof(p, lda) < n)

    def factor(c, done, parts=None):
        n, lda, A0, A1 = D(c)
        return [(nm, forall(lambda p: Implies(And(tri(p, n, lda), d(p)), eqn(A1, p, lda, A0[p])), pats=lambda p: [A1[p]])) for nm, d in (parts or [("factor", done)])] + [
                ("diag", forall(lambda i: Implies(And(rng(i, 0, n), done(imul(lda, i) + i)), A1[imul(lda, i) + i] > 0), pats=lambda i: [A1[imul(lda, i) + i]])),
                ("rest", forall(lambda p: Implies(And(p >= 0, Not(And(tri(p, n, lda), done(p)))), A1[p] == A0[p]), pats=lambda p: [A1[p]]))]
    req = lambda c: [("s1", And(Not(c.old.argi(1).null), c.old.argi(1).size >= 1, c.old.argi(1).off == 0)), ("s3", And(Not(c.old.argi(3).null), c.old.argi(3).size >= 1, c.old.argi(3).off == 0)),
                     ("info", Implies(Not(c.old.argi(4).null), And(c.old.argi(4).size >= 1, c.old.argi(4).off == 0))),
                     ("dims", And(D(c)[0] >= 0, D(c)[1] >= 1, D(c)[1] >= D(c)[0])), ("A", Implies(D(c)[0] > 0, And(Not(D(c)[2].null), D(c)[2].off == 0, D(c)[2].size >= imul(D(c)[1], D(c)[0] - 1) + D(c)[0])))]

    def post(c):
        info = c.new.argi(4)
        n, lda, A0, A1 = D(c)
        ok = And(Not(info.null), info[0] == 0)
        return [("info", Implies(Not(info.null), And(0 <= info[0], info[0] <= n)))] + [(a, Implies(ok, b)) for a, b in factor(c, lambda p: z3.BoolVal(True))] + [
                ("fail", Implies(And(Not(info.null), info[0] > 0), A1[0] <= 0))]
    R.add(name, requires=req, ensures=post, modifies=lambda c: marr(c.old.argi(2)) + marr(c.old.argi(4)), auto=False, timeout=40000)
    R.loop(name, "0", lambda c: [("r", rng(c.iv, 0, D(c)[0] + 1))] + factor(c, lambda p: rowof(p, D(c)[1]) < c.iv))

    def acc(c, i, j, s0):
        """sum = A0[i,j] minus the products k..: the loop runs downwards"""
        n, lda, A0, A1 = D(c)
        A = A1.arr
        dot = lambda m: DOT(one, A, imul(lda, i), i1, A, imul(lda, j), i1, m)
        return [("k", And(-1 <= c.iv, c.iv <= i - 1)), ("sum", c.v("sum") == A0[imul(lda, j) + i] - dot(i) + dot(c.iv + 1))]
    R.loop(name, "0.0", lambda c: acc(c, c.v("i"), c.v("i"), 0))
    R.loop(name, "0.1", lambda c: [("r", And(c.v("i") + 1 <= c.iv, c.iv <= D(c)[0]))] + factor(c, lambda p: Or(rowof(p, D(c)[1]) < c.v("i"), And(rowof(p, D(c)[1]) == c.v("i"), colof(p, D(c)[1]) < c.iv)),
                                                                              [("factor-above", lambda p: rowof(p, D(c)[1]) < c.v("i")), ("factor-row", lambda p: And(rowof(p, D(c)[1]) == c.v("i"), colof(p, D(c)[1]) < c.iv))]))
    R.loop(name, "0.1.0", lambda c: acc(c, c.v("i"), c.v("j"), 0))


def backsolves(R):
    q = "QProblemB::backsolveR"
    sig = "(const real_t *const, BooleanType, BooleanType, real_t *const) const"
    me = lambda c: c.old.this

    def nV(c): return me(c).bounds.n

    def nR(c):
        n = me(c).bounds.freee.length
        if c.ex.top.variant and "constrained" in c.ex.top.variant:
            n = n - me(c).constraints.active.length
        return If(c.old.argi(2) == 1, n - 1, n)

    def row(c, a, i, trans):
        """left-hand side of equation i"""
        Rm, n, k = me(c).R, nV(c), nR(c)
        if trans:
            return DOT(one, Rm.arr, imul(n, i), i1, a.arr, z3.IntVal(0), i1, i) + Rm[imul(n, i) + i] * a[i]
        return DOT(one, Rm.arr, imul(n, i + 1) + i, n, a.arr, i + 1, i1, k - i - 1) + Rm[imul(n, i) + i] * a[i]

    def solved(c, lo, hi, trans):
        a, b = c.new.argi(3), c.old.argi(0)
        return forall(lambda i: Implies(rng(i, lo, hi), row(c, a, i, trans) == b[i]), pats=lambda i: [b[i]])

    def rest(c, lo, hi):
        a0, a1 = c.old.argi(3), c.new.argi(3)
        return forall(lambda i: Implies(Not(rng(i, lo, hi)), a1[i] == a0[i]), pats=lambda i: [a1[i]])
    for v, dyn in (("bounds", None), ("constrained", "QProblem")):
        for al in (False, True):
            req = lambda c: [("n", And(nR(c) <= nV(c), nV(c) >= 0)), ("R", sq(me(c).R, nV(c))), ("a", vec(c.old.argi(3), nR(c))), ("b", vec(c.old.argi(0), nR(c)))]
            R.add(q, sig=sig, variant=v + ("-inplace" if al else ""), only_variant=True, dyn=dyn, auto=False, setup=alias("a", "b") if al else None, requires=req, modifies=lambda c: marr(c.old.argi(3)),
                  ensures=lambda c: [("solved", Implies(And(c.ret == 0, c.old.argi(1) == 0), solved(c, 0, nR(c), False))), ("solved-transposed", Implies(And(c.ret == 0, c.old.argi(1) == 1), solved(c, 0, nR(c), True))),
                                     ("rest", rest(c, 0, nR(c)))])
    R.loop(q, "0", lambda c: [("r", And(-1 <= c.iv, c.iv <= nR(c) - 1)), ("solved", solved(c, c.iv + 1, nR(c), False)), ("rest", rest(c, c.iv + 1, nR(c)))], sig=sig)
    R.loop(q, "0.0", lambda c: [("r", And(c.v("i") + 1 <= c.iv, c.iv <= nR(c))), ("sum", c.v("sum") == c.old.argi(0)[c.v("i")] - DOT(one, me(c).R.arr, imul(nV(c), c.v("i") + 1) + c.v("i"), nV(c), c.new.argi(3).arr, c.v("i") + 1, i1, c.iv - c.v("i") - 1))], sig=sig)
    R.loop(q, "1", lambda c: [("r", And(0 <= c.iv, c.iv <= nR(c))), ("solved", solved(c, 0, c.iv, True)), ("rest", rest(c, 0, c.iv))], sig=sig)
    R.loop(q, "1.0", lambda c: [("r", And(0 <= c.iv, c.iv <= c.v("i"))), ("sum", c.v("sum") == c.old.argi(0)[c.v("i")] - DOT(one, me(c).R.arr, imul(nV(c), c.v("i")), i1, c.new.argi(3).arr, z3.IntVal(0), i1, c.iv))], sig=sig)

    # T is reverse lower triangular, stored by rows in the lower right corner columns
    t = "QProblem::backsolveT"
    nT = lambda c: me(c).constraints.active.length
    S = lambda c: me(c).sizeT
    Tm = lambda c: me(c).T

    def trow(c, a, i, tr, m=None):
        m = i if m is None else m
        n, s = nT(c), S(c)
        if tr:      # column tcol+i of T, rows upwards from nT-1
            return DOT(one, Tm(c).arr, imul(s, n - 1) + (s - n) + i, -s, a.arr, n - 1, m1, m)
        return DOT(one, Tm(c).arr, imul(s, i) + s - 1, m1, a.arr, n - 1, m1, m)

    def pivot(c, a, i, tr):
        n, s = nT(c), S(c)
        return Tm(c)[(imul(s, n - 1 - i) + (s - n) + i) if tr else (imul(s, i) + s - 1 - i)] * a[n - 1 - i]

    def tsolved(c, hi, tr):
        a, b = c.new.argi(2), c.old.argi(0)
        return forall(lambda i: Implies(rng(i, 0, hi), trow(c, a, i, tr) + pivot(c, a, i, tr) == b[i]), pats=lambda i: [b[i]])

    def trest(c, n):
        a0, a1 = c.old.argi(2), c.new.argi(2)
        return forall(lambda i: Implies(Not(rng(i, nT(c) - n, nT(c))), a1[i] == a0[i]), pats=lambda i: [a1[i]])
    R.add(t, only_variant=True, auto=False, modifies=lambda c: marr(c.old.argi(2)), requires=lambda c: [("n", And(nT(c) >= 0, nT(c) <= S(c))), ("T", sq(Tm(c), S(c))), ("a", vec(c.old.argi(2), nT(c))), ("b", vec(c.old.argi(0), nT(c)))],
          ensures=lambda c: [("solved", Implies(And(c.ret == 0, c.old.argi(1) == 0), tsolved(c, nT(c), False))), ("solved-transposed", Implies(And(c.ret == 0, c.old.argi(1) == 1), tsolved(c, nT(c), True))), ("rest", trest(c, If(nT(c) > 0, nT(c), z3.IntVal(0))))])
    for b, tr in (("0", False), ("1", True)):
        R.loop(t, b, lambda c, tr=tr: [("r", rng(c.iv, 0, nT(c) + 1)), ("solved", tsolved(c, c.iv, tr)), ("rest", trest(c, c.iv))])
        R.loop(t, b + ".0", lambda c, tr=tr: [("r", rng(c.iv, 0, c.v("i") + 1)), ("sum", c.v("sum") == c.old.argi(0)[c.v("i")] - trow(c, c.new.argi(2), c.v("i"), tr, c.iv))])


def givens(R):
    def post(c):
        x, y = c.old.argi(0), c.old.argi(1)
        cc, s, xn, yn = c.new.argi(4), c.new.argi(5), c.new.argi(2), c.new.argi(3)
        return [("orthogonal", cc * cc + s * s == 1), ("x", Or(absr(y) > ZERO, And(cc == 1, s == 0, xn == x, yn == y))),
                ("rotates-x", Implies(absr(y) > ZERO, xn == cc * x + s * y)), ("rotates-y", Implies(absr(y) > ZERO, And(yn == 0, cc * y - s * x == 0))), ("sign", Implies(absr(y) > ZERO, xn * x >= 0))]
    R.add("QProblemB::computeGivens", only_variant=True, ensures=post, modifies=lambda c: [mref(c.old, k) for k in ("xnew", "ynew", "c", "s")])

    def ap(c):
        cc, s, nu, x, y = [c.old.argi(i) for i in range(5)]
        return [("x", c.new.argi(5) == cc * x + s * y), ("y", c.new.argi(6) == cc * y - s * x)]
    R.add("QProblemB::applyGivens", only_variant=True, ensures=ap, modifies=lambda c: [mref(c.old, k) for k in ("xnew", "ynew")])


HM = z3.Function("HM", Int, Int, Real)       # entries of the abstract Hessian matrix


def tqsetup(R):
    def getcol(c):
        L, cl, o, n = c.old.argi(1).obj, c.old.argi(0), c.old.argi(3), c.new.argi(3)
        al = c.old.argi(2)
        return [("entries", allin(0, L.length, lambda i: n[i] == al * HM(L.number[i], cl), pats=lambda i: [n[i]])),
                ("rest", forall(lambda i: Implies(Not(rng(i, 0, L.length)), n[i] == o[i]), pats=lambda i: [n[i]])), ("ret", c.ret == 0)]
    R.add("Matrix::getCol", requires=lambda c: [("list", c.old.argi(1).obj.length >= 0), ("col", Implies(c.old.argi(1).obj.length > 0, And(Not(c.old.argi(3).null), c.old.argi(3).off >= 0, c.old.argi(1).obj.length <= c.old.argi(3).size)))],
          ensures=getcol, modifies=lambda c: marr(c.old.argi(3)), trusted="abstract matrix interface; the implementations are proved to do this by C03 and C04")
    q = "QProblemB::computeCholesky"
    me = lambda c: c.old.this
    nV = lambda c: me(c).bounds.n
    fr = lambda c: me(c).bounds.freee

    def ent(A, p, n):
        i, j = rowof(p, n), colof(p, n)
        return DOT(one, A.arr, imul(n, i), i1, A.arr, imul(n, j), i1, i) + A[imul(n, i) + i] * A[p]

    def isfull(c):
        h = me(c).hessianType
        return And(h != c.E["HST_ZERO"], h != c.E["HST_IDENTITY"])

    def fact(c):
        A, N, n, k = c.new.this.R, fr(c).number, nV(c), fr(c).length
        tri = lambda p: And(p >= 0, n > 0, rowof(p, n) <= colof(p, n), colof(p, n) < k)
        return [("factor", forall(lambda p: Implies(tri(p), ent(A, p, n) == HM(N[rowof(p, n)], N[colof(p, n)])), pats=lambda p: [A[p]])),
                ("diag", allin(0, k, lambda i: A[imul(n, i) + i] > 0, pats=lambda i: [A[imul(n, i) + i]]))]

    def unit(c, val, hi):
        A, n = c.new.this.R, nV(c)
        return [("unit", forall(lambda p: Implies(rng(p, 0, imul(n, n)), A[p] == If(And(rowof(p, n) == colof(p, n), rowof(p, n) < hi), val, z3.RealVal(0))), pats=lambda p: [A[p]]))]
    SQ = z3.Function("sqrt!", Real, Real)

    def post(c):
        h, E = me(c).hessianType, c.E
        out = [(a, Implies(And(isfull(c), c.ret == 0), b)) for a, b in fact(c)]
        out += [("identity", Implies(h == E["HST_IDENTITY"], And(c.ret == 0, *[b for a, b in unit(c, z3.RealVal(1), nV(c))]))),
                ("zero", Implies(And(h == E["HST_ZERO"], me(c).regVal > ZERO), And(c.ret == 0, *[b for a, b in unit(c, SQ(me(c).regVal), nV(c))]))),
                ("zero-refused", Implies(And(h == E["HST_ZERO"], me(c).regVal <= ZERO), c.ret == E["RET_CHOLESKY_OF_ZERO_HESSIAN"])),
                ("not-spd", Implies(And(isfull(c), c.ret != 0), And(c.ret == E["RET_HESSIAN_NOT_SPD"], c.new.this.hessianType == E["HST_SEMIDEF"]))),
                ("type", Implies(c.ret == 0, c.new.this.hessianType == h))]
        return out
    for v, cond in (("zero", lambda c: me(c).hessianType == c.E["HST_ZERO"]), ("identity", lambda c: me(c).hessianType == c.E["HST_IDENTITY"]), ("general", isfull)):
        R.add(q, variant=v, requires=lambda c, cond=cond: [("type", cond(c)), ("n", And(nV(c) >= 0, fr(c).length >= 0, fr(c).length <= nV(c))), ("R", sq(me(c).R, nV(c))), ("list", Implies(fr(c).length > 0, And(Not(fr(c).number.null), fr(c).number.size >= fr(c).length))), ("H", Implies(isfull(c), Not(me(c).H.null)))],
              ensures=post, modifies=lambda c: marr(me(c).R) + [mfield(me(c), "hessianType"), ("field", me(c).options._path + ("epsRegularisation",), me(c).options._fty("epsRegularisation"))], auto=False, only_variant=True, prune=True)
    z = lambda c, hi: forall(lambda p: Implies(rng(p, 0, hi), c.new.this.R[p] == 0), pats=lambda p: [c.new.this.R[p]])
    R.loop(q, "0", lambda c: [("r", And(0 <= c.iv, c.iv <= imul(nV(c), nV(c)))), ("z", z(c, c.iv))])

    def cols(c):
        A, N, n = c.new.this.R, fr(c).number, nV(c)
        return [("r", rng(c.iv, 0, fr(c).length + 1)), ("cols", forall(lambda p: Implies(And(p >= 0, rowof(p, n) < fr(c).length, colof(p, n) < c.iv), A[p] == HM(N[rowof(p, n)], N[colof(p, n)])), pats=lambda p: [A[p]]))]
    R.loop(q, "1", lambda c: {"zero": lambda: [("r", rng(c.iv, 0, nV(c) + 1))] + unit(c, SQ(me(c).regVal), c.iv), "identity": lambda: [("r", rng(c.iv, 0, nV(c) + 1))] + unit(c, z3.RealVal(1), c.iv), "general": lambda: cols(c)}[c.ex.top.variant]())
    R.loop(q, "2", lambda c: [("r", And(0 <= c.iv, Or(c.iv <= fr(c).length - 1, c.iv == 0)))] + fact(c))

    # Q unity on the free variables, T zero
    t = "QProblem::setupTQfactorisation"

    def unity(c, hi, z):
        A, n, N = c.new.this.Q, nV(c), fr(c).number
        return [("unity", forall(lambda p: Implies(rng(p, 0, imul(n, n)), A[p] == If(And(colof(p, n) < hi, rowof(p, n) == N[colof(p, n)]), one, z3.RealVal(0))), pats=lambda p: [A[p]]))]
    R.add(t, requires=lambda c: [("n", And(nV(c) >= 0, me(c).sizeT >= 0, fr(c).length >= 0, fr(c).length <= nV(c))), ("Q", sq(me(c).Q, nV(c))), ("T", sq(me(c).T, me(c).sizeT)), ("list", Implies(fr(c).length > 0, And(Not(fr(c).number.null), fr(c).number.size >= fr(c).length))),
                                 ("range", allin(0, fr(c).length, lambda k: rng(fr(c).number[k], 0, nV(c)), pats=lambda k: [fr(c).number[k]]))],
          ensures=lambda c: unity(c, fr(c).length, 0) + [("T", forall(lambda p: Implies(rng(p, 0, imul(me(c).sizeT, me(c).sizeT)), c.new.this.T[p] == 0))), ("ret", c.ret == 0)],
          modifies=lambda c: marr(me(c).Q) + marr(me(c).T), auto=False, only_variant=True)
    R.loop(t, "0", lambda c: [("r", And(0 <= c.iv, c.iv <= imul(nV(c), nV(c)))), ("z", forall(lambda p: Implies(rng(p, 0, c.iv), c.new.this.Q[p] == 0), pats=lambda p: [c.new.this.Q[p]]))])
    R.loop(t, "1", lambda c: [("r", rng(c.iv, 0, fr(c).length + 1))] + unity(c, c.iv, 0))
    R.loop(t, "2", lambda c: [("r", And(0 <= c.iv, c.iv <= imul(me(c).sizeT, me(c).sizeT))), ("z", forall(lambda p: Implies(rng(p, 0, c.iv), c.new.this.T[p] == 0), pats=lambda p: [c.new.this.T[p]]))])


def setup(R):
    tqsetup(R)
    for l in ("dot-frame-left", "dot-frame-right"):
        R.lemma(l)
    potrf(R, "dpotrf_")
    backsolves(R)
    givens(R)
    return R
