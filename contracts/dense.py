"""C03: dense matrices and the BLAS kernel they use."""
from qpv.dsl import *
from contracts.indexlist import wf, inv
from contracts.workset import pos, member_at


def inblock(p, M, N, L):
    return And(p >= 0, rowof(p, L) < M, colof(p, L) < N)


def gemm(R, name):
    def P(c, s):
        g = lambda i: getattr(s, "argi")(i)[0]
        return dict(M=g(2), N=g(3), K=g(4), al=g(5), A=s.argi(6), lda=g(7), B=s.argi(8), ldb=g(9), be=g(10), C=s.argi(11), ldc=g(12), tr=s.argi(0)[0] != 78)

    def req(c):
        d = P(c, c.old)
        ra, ca = If(d["tr"], d["K"], d["M"]), If(d["tr"], d["M"], d["K"])
        sc = [("scalar%d" % i, And(Not(c.old.argi(i).null), c.old.argi(i).size >= 1, c.old.argi(i).off == 0)) for i in (0, 2, 3, 4, 5, 7, 9, 10, 12)]
        return sc + [("dims", And(d["M"] >= 0, d["N"] >= 0, d["K"] >= 0, d["lda"] >= 1, d["ldb"] >= 1, d["ldc"] >= 1)),
                ("lda", d["lda"] >= ra), ("ldb", d["ldb"] >= d["K"]), ("ldc", d["ldc"] >= d["M"]),
                ("A-size", Implies(And(ra > 0, ca > 0), And(Not(d["A"].null), d["A"].size >= imul(d["lda"], ca - 1) + ra, d["A"].off == 0))),
                ("B-size", Implies(And(d["K"] > 0, d["N"] > 0), And(Not(d["B"].null), d["B"].size >= imul(d["ldb"], d["N"] - 1) + d["K"], d["B"].off == 0))),
                ("C-size", Implies(And(d["M"] > 0, d["N"] > 0), And(Not(d["C"].null), d["C"].size >= imul(d["ldc"], d["N"] - 1) + d["M"], d["C"].off == 0)))]

    def prod(d, p, n):
        j, k = rowof(p, d["ldc"]), colof(p, d["ldc"])
        al = snap(d["al"])
        return If(d["tr"], DOT(al, d["A"].arr, imul(d["lda"], j), z3.IntVal(1), d["B"].arr, imul(d["ldb"], k), z3.IntVal(1), n),
                  DOT(al, d["A"].arr, j, d["lda"], d["B"].arr, imul(d["ldb"], k), z3.IntVal(1), n))

    def result(d, p, C0):
        return If(inblock(p, d["M"], d["N"], d["ldc"]), snap0(d["be"]) * C0[p] + prod(d, p, d["K"]), C0[p])

    def post(c):
        d = P(c, c.old)
        C0, C1 = d["C"], c.new.argi(11)
        return [("C", forall(lambda p: Implies(p >= 0, C1[p] == result(d, p, C0)), pats=lambda p: [C1[p]]))]

    R.add(name, auto=False, requires=req, ensures=post, modifies=lambda c: marr(c.old.argi(11)))
    for base in (0, 1, 2):
        @R.loop(name, "%d.0" % base)
        def _(c):
            d = P(c, c.old)
            C0, C1, k = c.old.argi(11), c.new.argi(11), c.v("k")
            return [("j", And(0 <= c.iv, c.iv <= d["M"])),
                    ("scaled", forall(lambda p: Implies(p >= 0, C1[p] == If(And(inblock(p, d["M"], d["N"], d["ldc"]), Or(colof(p, d["ldc"]) < k, And(colof(p, d["ldc"]) == k, rowof(p, d["ldc"]) < c.iv))), snap0(d["be"]) * C0[p], C0[p])), pats=lambda p: [C1[p]]))]

    # scaling loops 0,1,2 ; product loops 3..8
    for base in (0, 1, 2):
        @R.loop(name, str(base))
        def _(c):
            d = P(c, c.old)
            C0, C1, k = c.old.argi(11), c.new.argi(11), c.iv
            return [("k", 0 <= k), ("k1", Or(k <= d["N"])),
                    ("scaled", forall(lambda p: Implies(p >= 0, C1[p] == If(inblock(p, d["M"], k, d["ldc"]), snap0(d["be"]) * C0[p], C0[p])), pats=lambda p: [C1[p]]))]
    def scaled(d, C0, p):
        return If(inblock(p, d["M"], d["N"], d["ldc"]), snap0(d["be"]) * C0[p], C0[p])

    def upto(c, cond, partial=None):
        d = P(c, c.old)
        C0, C1 = c.old.argi(11), c.new.argi(11)
        return [("product", forall(lambda p: Implies(p >= 0, C1[p] == scaled(d, C0, p) + If(And(inblock(p, d["M"], d["N"], d["ldc"]), cond(p, d)), prod(d, p, d["K"]),
                 If(partial(p, d)[0], prod(d, p, partial(p, d)[1]), z3.RealVal(0)) if partial else z3.RealVal(0))), pats=lambda p: [C1[p]]))]
    for base in range(3, 9):
        @R.loop(name, "%d" % base)
        def _(c):
            d = P(c, c.old)
            return [("k", And(0 <= c.iv, c.iv <= d["N"]))] + upto(c, lambda p, d: colof(p, d["ldc"]) < c.iv)

        @R.loop(name, "%d.0" % base)
        def _(c):
            d = P(c, c.old)
            k = c.v("k")
            return [("j", And(0 <= c.iv, c.iv <= d["M"]))] + upto(c, lambda p, d: Or(colof(p, d["ldc"]) < k, And(colof(p, d["ldc"]) == k, rowof(p, d["ldc"]) < c.iv)))

        @R.loop(name, "%d.0.0" % base)
        def _(c):
            d = P(c, c.old)
            k, j = c.v("k"), c.v("j")
            L = d["ldc"]
            return [("i", And(0 <= c.iv, c.iv <= d["K"]))] + upto(c, lambda p, d: Or(colof(p, L) < k, And(colof(p, L) == k, rowof(p, L) < j)),
                                                                   lambda p, d: (And(colof(p, L) == k, rowof(p, L) == j), c.iv))


def shape(D, rows=None):
    """the stored array covers all nRows x nCols entries"""
    return [("dims", And(D.nRows >= 0, D.nCols >= 0, D.leaDim >= D.nCols)),
            ("val", Implies(And(D.nRows > 0, D.nCols > 0), And(Not(D.val.null), D.val.off == 0, D.val.size >= imul(D.leaDim, D.nRows - 1) + D.nCols)))]


def entry(D, i, j):
    return D.val[imul(D.leaDim, i) + j]


def list_in(L, n, nm):
    return [(nm + ":" + a, b) for a, b in wf(L)] + [(nm + "-in", allin(0, L.length, lambda k: rng(L.number[k], 0, n), pats=lambda k: [L.number[k]]))]


def rank(L, r):
    return inv(L, r)


def scale_row(al, v):
    return snap(al) * v


def setup_dense(R):
    q = "DenseMatrix::"
    R.add("getNorm", requires=lambda c: [("n", c.old.argi(1) >= 0), ("v", Implies(c.old.argi(1) > 0, And(Not(c.old.argi(0).null), c.old.argi(0).size >= c.old.argi(1))))],
          ensures=lambda c: norm_post(c, c.old.argi(0).arr if not c.old.argi(0).none else None, c.old.argi(0).off if not c.old.argi(0).none else None, c.old.argi(1), c.old.argi(2)), pure=True)
    R.loop("getNorm", "0")(lambda c: [("r", And(0 <= c.iv, Or(c.iv <= c.old.argi(1)))), ("sum", c.v("norm") == sumsq(c.old.argi(0), c.iv)), ("nonneg", c.v("norm") >= 0)])
    R.loop("getNorm", "1")(lambda c: [("r", And(0 <= c.iv, Or(c.iv <= c.old.argi(1)))), ("sum", c.v("norm") == SABS(c.old.argi(0).arr, c.old.argi(0).off, c.iv))])

    me = lambda c: c.old.this
    R.add(q + "diag", pure=True, requires=lambda c: shape(me(c)) + [("i", And(0 <= c.old.argi(0), c.old.argi(0) < me(c).nRows, c.old.argi(0) < me(c).nCols))],
          ensures=lambda c: [("value", c.ret == entry(me(c), c.old.argi(0), c.old.argi(0)))])

    def isdiag(c):
        D = me(c)
        off = forall(lambda i, j: Implies(And(rng(i, 0, D.nRows), rng(j, 0, D.nCols), i != j), absr(entry(D, i, j)) <= z3.RealVal("2.221e-16")), 2)
        return [("diag", Implies(c.ret == 1, And(D.nRows == D.nCols, off))), ("bool", Or(c.ret == 0, c.ret == 1))]
    R.add(q + "isDiag", pure=True, requires=lambda c: shape(me(c)), ensures=isdiag)

    def small(D, cond):
        return forall(lambda i, j: Implies(And(rng(i, 0, D.nRows), rng(j, 0, i), cond(i, j)), And(absr(entry(D, i, j)) <= z3.RealVal("2.221e-16"), absr(entry(D, j, i)) <= z3.RealVal("2.221e-16"))), 2)
    R.loop(q + "isDiag", "0")(lambda c: [("r", And(0 <= c.iv, c.iv <= me(c).nRows)), ("small", small(me(c), lambda i, j: i < c.iv))])
    R.loop(q + "isDiag", "0.0")(lambda c: [("r", And(0 <= c.iv, c.iv <= c.v("i"))), ("small", small(me(c), lambda i, j: Or(i < c.v("i"), And(i == c.v("i"), j < c.iv))))])

    # row and column extraction
    def getrow(c):
        D, L, row = me(c), c.old.argi(1), c.new.argi(3)
        al = snap(c.old.argi(2))
        n = If(L.null, D.nCols, L.obj.length)
        col = lambda i: If(L.null, i, L.obj.number[i])
        return [("code", c.ret == 0), ("row", allin(0, n, lambda i: row[i] == al * entry(D, c.old.argi(0), col(i)), pats=lambda i: [row[i]])),
                ("rest", forall(lambda i: Implies(i >= n, row[i] == c.old.argi(3)[i]), pats=lambda i: [row[i]]))]
    R.add(q + "getRow", modifies=lambda c: marr(c.old.argi(3)), ensures=getrow,
          requires=lambda c: shape(me(c)) + [("rNum", And(0 <= c.old.argi(0), c.old.argi(0) < me(c).nRows))] + [(a, Implies(Not(c.old.argi(1).null), b)) for a, b in list_in(c.old.argi(1).obj, me(c).nCols, "icols")]
          + [("row", And(Not(c.old.argi(3).null), c.old.argi(3).off == 0, c.old.argi(3).size >= If(c.old.argi(1).null, me(c).nCols, c.old.argi(1).obj.length)))])

    def getcol(c):
        D, L, col = me(c), c.old.argi(1).obj, c.new.argi(3)
        al = snap(c.old.argi(2))
        return [("code", c.ret == 0), ("col", allin(0, L.length, lambda i: col[i] == al * entry(D, L.number[i], c.old.argi(0)), pats=lambda i: [col[i]])),
                ("rest", forall(lambda i: Implies(i >= L.length, col[i] == c.old.argi(3)[i]), pats=lambda i: [col[i]]))]
    R.add(q + "getCol", modifies=lambda c: marr(c.old.argi(3)), ensures=getcol,
          requires=lambda c: shape(me(c)) + [("cNum", And(0 <= c.old.argi(0), c.old.argi(0) < me(c).nCols)), ("irows", Not(c.old.argi(1).null))] + list_in(c.old.argi(1).obj, me(c).nRows, "irows")
          + [("col", And(Not(c.old.argi(3).null), c.old.argi(3).off == 0, c.old.argi(3).size >= c.old.argi(1).obj.length))])

    # row norms
    R.add(q + "getRowNorm", sig="real_t (int_t, int_t) const", pure=True, requires=lambda c: shape(me(c)) + [("rNum", And(0 <= c.old.argi(0), c.old.argi(0) < me(c).nRows, me(c).nCols > 0))],
          ensures=lambda c: norm_post(c, me(c).val.arr, imul(me(c).leaDim, c.old.argi(0)), me(c).nCols, c.old.argi(1)))

    # addToDiag
    def diagmap(c, upto):
        D, N = c.old.this, c.new.this
        al = c.old.argi(0)
        on = lambda p: And(rowof(p, D.leaDim) == colof(p, D.leaDim), rowof(p, D.leaDim) < upto)
        return forall(lambda p: Implies(p >= 0, N.val[p] == If(And(D.leaDim > 0, on(p)), D.val[p] + al, D.val[p])), pats=lambda p: [N.val[p]])
    R.add(q + "addToDiag", modifies=lambda c: marr(c.old.this.val), requires=lambda c: shape(me(c)),
          ensures=lambda c: [("code", c.ret == 0), ("diagonal", diagmap(c, If(me(c).nRows < me(c).nCols, me(c).nRows, me(c).nCols)))])
    R.loop(q + "addToDiag", "0")(lambda c: [("r", And(0 <= c.iv, Or(c.iv == 0, And(c.iv <= me(c).nRows, c.iv <= me(c).nCols)))), ("diag", diagmap(c, c.iv))])

    # full copies
    def fullmap(c, v, done):
        D = c.old.this
        return forall(lambda p: Implies(And(p >= 0, D.nCols > 0, rowof(p, D.nCols) < D.nCols, done(colof(p, D.nCols), rowof(p, D.nCols))), v[p] == entry(D, colof(p, D.nCols), rowof(p, D.nCols))), pats=lambda p: [v[p]])
    R.add(q + "full", only_variant=True, requires=lambda c: shape(me(c)), ensures=lambda c: [("size", c.ret.size == imul(me(c).nRows, me(c).nCols)),
          ("copy", Implies(me(c).nCols > 0, fullmap(c, c.ret, lambda i, j: i < me(c).nRows))), ("fresh", c.fresh(c.ret))])
    R.loop(q + "full", "0")(lambda c: [("r", And(0 <= c.iv, c.iv <= me(c).nRows)), ("copy", fullmap(c, c.v("v"), lambda i, j: i < c.iv))])
    R.loop(q + "full", "0.0")(lambda c: [("r", And(0 <= c.iv, c.iv <= me(c).nCols)), ("copy", fullmap(c, c.v("v"), lambda i, j: Or(i < c.v("i"), And(i == c.v("i"), j < c.iv))))])

    # all row norms
    def rownorms(c, v, upto):
        D, ty = c.old.this, c.old.argi(1)
        one = z3.IntVal(1)
        s2 = lambda i: DOT(z3.RealVal(1), D.val.arr, imul(D.leaDim, i), one, D.val.arr, imul(D.leaDim, i), one, D.nCols)
        return allin(0, upto, lambda i: And(Implies(ty == 2, And(v[i] >= 0, v[i] * v[i] == s2(i))), Implies(ty == 1, v[i] == SABS(D.val.arr, imul(D.leaDim, i), D.nCols)),
                                            Implies(And(ty != 1, ty != 2), v[i] == z3.RealVal("-1e20"))), pats=lambda i: [v[i]])
    R.add(q + "getRowNorm", sig="(real_t *, int_t)", only_variant=True, requires=lambda c: shape(me(c)) + [("cols", me(c).nCols > 0), ("norm", Implies(me(c).nRows > 0, And(Not(c.old.argi(0).null), c.old.argi(0).off == 0, c.old.argi(0).size >= me(c).nRows)))],
          modifies=lambda c: marr(c.old.argi(0)), ensures=lambda c: [("code", c.ret == 0), ("norms", rownorms(c, c.new.argi(0), me(c).nRows)),
          ("rest", forall(lambda i: Implies(Or(i < 0, i >= me(c).nRows), c.new.argi(0)[i] == c.old.argi(0)[i]), pats=lambda i: [c.new.argi(0)[i]]))])
    R.loop(q + "getRowNorm", "0", lambda c: [("r", And(0 <= c.iv, c.iv <= me(c).nRows)), ("norms", rownorms(c, c.new.argi(0), c.iv)),
           ("rest", forall(lambda i: Implies(Or(i < 0, i >= me(c).nRows), c.new.argi(0)[i] == c.old.argi(0)[i]), pats=lambda i: [c.new.argi(0)[i]]))], sig="(real_t *, int_t)")

    # bilinear form over the listed columns of a symmetric matrix
    b = "SymDenseMat::bilinear"

    def P(c):
        return dict(D=c.old.this, L=c.old.argi(0).obj, xN=c.old.argi(1), x=c.old.argi(2), xLD=c.old.argi(3), y0=c.old.argi(4), y=c.new.argi(4), yLD=c.old.argi(5))

    def breq(c):
        d = P(c)
        return shape(d["D"]) + [("irows", Not(c.old.argi(0).null)), ("square", d["D"].nRows == d["D"].nCols)] + list_in(d["L"], d["D"].nCols, "icols") + [
            ("xN", d["xN"] >= 0), ("ld", And(d["yLD"] >= 1, d["yLD"] >= d["xN"], d["xLD"] >= d["D"].nCols, d["xLD"] >= 1)),
            ("x", Implies(d["xN"] > 0, And(Not(d["x"].null), d["x"].off == 0, d["x"].size >= imul(d["xLD"], d["xN"] - 1) + d["D"].nCols))),
            ("y", Implies(d["xN"] > 0, And(Not(d["y0"].null), d["y0"].off == 0, d["y0"].size >= imul(d["yLD"], d["xN"] - 1) + d["xN"])))]

    def value(d, p, n):
        return BIL(d["D"].val.arr, d["D"].leaDim, d["L"].number.arr, d["x"].arr, imul(d["xLD"], colof(p, d["yLD"])), imul(d["xLD"], rowof(p, d["yLD"])), d["L"].length, n)

    def ymap(d, val):
        return forall(lambda p: Implies(p >= 0, d["y"][p] == If(inblock(p, d["xN"], d["xN"], d["yLD"]), val(p), d["y0"][p])), pats=lambda p: [d["y"][p]])
    R.add(b, auto=False, only_variant=True, requires=breq, modifies=lambda c: marr(c.old.argi(4)), ensures=lambda c: [("code", c.ret == 0), ("y", ymap(P(c), lambda p: value(P(c), p, P(c)["L"].length)))])
    zero = z3.RealVal(0)

    def clear(c, cond):
        d = P(c)
        return [("clear", forall(lambda p: Implies(p >= 0, d["y"][p] == If(And(inblock(p, d["xN"], d["xN"], d["yLD"]), cond(d, p)), zero, d["y0"][p])), pats=lambda p: [d["y"][p]]))]
    R.loop(b, "0", lambda c: [("r", rng(c.iv, 0, P(c)["xN"] + 1))] + clear(c, lambda d, p: colof(p, d["yLD"]) < c.iv))
    R.loop(b, "0.0", lambda c: [("r", rng(c.iv, 0, P(c)["xN"] + 1))] + clear(c, lambda d, p: Or(colof(p, d["yLD"]) < c.v("ii"), And(colof(p, d["yLD"]) == c.v("ii"), rowof(p, d["yLD"]) < c.iv))))
    R.loop(b, "1", lambda c: [("r", rng(c.iv, 0, imul(P(c)["L"].length, P(c)["xN"]) + 1)), ("zero", allin(0, c.iv, lambda i: c.v("Ax")[i] == 0, pats=lambda i: [c.v("Ax")[i]]))])

    def axmap(c, done):
        d = P(c)
        n, X = d["L"].length, c.v("Ax")

        def term(p, m):
            return DOTN(d["D"].val.arr, imul(d["D"].leaDim, d["L"].number[rowof(p, n)]), d["L"].number.arr, d["x"].arr, imul(d["xLD"], colof(p, n)), m)
        return [("Ax", forall(lambda p: Implies(And(n > 0, rng(p, 0, imul(n, d["xN"]))), X[p] == done(p, n, lambda m: term(p, m))), pats=lambda p: [X[p]]))]
    R.loop(b, "2", lambda c: [("r", rng(c.iv, 0, P(c)["L"].length + 1))] + axmap(c, lambda p, n, t: If(rowof(p, n) < c.iv, t(n), zero)))
    R.loop(b, "2.0", lambda c: [("r", rng(c.iv, 0, P(c)["L"].length + 1))] + axmap(c, lambda p, n, t: If(rowof(p, n) < c.v("j"), t(n), If(rowof(p, n) == c.v("j"), t(c.iv), zero))))
    R.loop(b, "2.0.0", lambda c: [("r", rng(c.iv, 0, P(c)["xN"] + 1))] + axmap(c, lambda p, n, t: If(rowof(p, n) < c.v("j"), t(n), If(rowof(p, n) == c.v("j"), If(colof(p, n) < c.iv, t(c.v("i") + 1), t(c.v("i"))), zero))))

    def upd(c, cnt):
        d = P(c)
        return [("y", ymap(d, lambda p: value(d, p, cnt(d, p))))]
    R.loop(b, "3", lambda c: [("r", rng(c.iv, 0, P(c)["L"].length + 1))] + upd(c, lambda d, p: c.iv))
    R.loop(b, "3.0", lambda c: [("r", rng(c.iv, 0, P(c)["xN"] + 1))] + upd(c, lambda d, p: If(colof(p, d["yLD"]) < c.iv, c.v("ii") + 1, c.v("ii"))))
    R.loop(b, "3.0.0", lambda c: [("r", rng(c.iv, 0, P(c)["xN"] + 1))] + upd(c, lambda d, p: If(Or(colof(p, d["yLD"]) < c.v("jj"), And(colof(p, d["yLD"]) == c.v("jj"), rowof(p, d["yLD"]) < c.iv)), c.v("ii") + 1, c.v("ii"))))

    # products with the whole matrix
    for nm, tr in (("times", False), ("transTimes", True)):
        whole(R, q + nm, tr)
        for comp in ((True, False) if not tr else (True,)):
            for nul in ((True, False) if not tr else (False,)):
                indexed(R, q + nm, tr, comp, nul)


def sumsq(v, n):
    return DOT(z3.RealVal(1), v.arr, v.off, z3.IntVal(1), v.arr, v.off, z3.IntVal(1), n)


def norm_post(c, A, off, n, ty):
    if A is None:
        return []
    s2 = DOT(z3.RealVal(1), A, off, z3.IntVal(1), A, off, z3.IntVal(1), n)
    return [("two", Implies(ty == 2, And(c.ret >= 0, c.ret * c.ret == s2))), ("one", Implies(ty == 1, c.ret == SABS(A, off, n))),
            ("other", Implies(And(ty != 1, ty != 2), c.ret == z3.RealVal("-1e20")))]


def whole(R, name, tr):
    """y := beta*y + alpha*M*x, M the matrix or its transpose; x, y stored by columns"""
    def P(c):
        D = c.old.this
        return dict(D=D, xN=c.old.argi(0), al=c.old.argi(1), x=c.old.argi(2), xLD=c.old.argi(3), be=c.old.argi(4), y=c.old.argi(5), yLD=c.old.argi(6),
                    m=D.nCols if tr else D.nRows, k=D.nRows if tr else D.nCols)

    def req(c):
        d = P(c)
        return shape(d["D"]) + [("xN", d["xN"] >= 0), ("ld", And(d["xLD"] >= 1, d["yLD"] >= 1, d["xLD"] >= d["k"], d["yLD"] >= d["m"])),
                ("x", Implies(And(d["k"] > 0, d["xN"] > 0), And(Not(d["x"].null), d["x"].off == 0, d["x"].size >= imul(d["xLD"], d["xN"] - 1) + d["k"]))),
                ("y", Implies(And(d["m"] > 0, d["xN"] > 0), And(Not(d["y"].null), d["y"].off == 0, d["y"].size >= imul(d["yLD"], d["xN"] - 1) + d["m"])))]

    def post(c):
        d = P(c)
        D, y0, y1 = d["D"], d["y"], c.new.argi(5)
        al = snap(d["al"])
        one = z3.IntVal(1)

        def prod(p):
            i, k = rowof(p, d["yLD"]), colof(p, d["yLD"])
            L = If(D.leaDim >= 1, D.leaDim, one)
            if tr:
                return DOT(al, D.val.arr, i, L, d["x"].arr, imul(d["xLD"], k), one, d["k"])
            return DOT(al, D.val.arr, imul(L, i), one, d["x"].arr, imul(d["xLD"], k), one, d["k"])
        return [("code", c.ret == 0), ("y", forall(lambda p: Implies(p >= 0, y1[p] == If(inblock(p, d["m"], d["xN"], d["yLD"]), snap0(d["be"]) * y0[p] + prod(p), y0[p])), pats=lambda p: [y1[p]]))]
    R.add(name, sig="(int_t, real_t, const real_t *, int_t, real_t, real_t *, int_t) const", requires=req, ensures=post, modifies=lambda c: marr(c.old.argi(5)))


def indexed(R, name, tr, comp, nul):
    """products with the rows and columns given by index lists; y compressed to the list or not; icols null means all columns"""
    sig = "(const Indexlist *const, const Indexlist *const, int_t,"

    def P(c):
        D = c.old.this
        d = dict(D=D, Lr=c.old.argi(0).obj, Lc=c.old.argi(1), xN=c.old.argi(2), al=c.old.argi(3), x=c.old.argi(4), xLD=c.old.argi(5), be=c.old.argi(6), y=c.old.argi(7), yLD=c.old.argi(8))
        d["m"] = d["Lc"].obj.length if tr else (d["Lr"].length if comp else D.nRows)
        d["k"] = d["Lr"].length if tr else (D.nCols if nul else d["Lc"].obj.length)
        return d

    def req(c):
        d = P(c)
        out = shape(d["D"]) + [("irows", Not(c.old.argi(0).null)), ("icols", c.old.argi(1).null if nul else Not(c.old.argi(1).null))] + list_in(d["Lr"], d["D"].nRows, "irows")
        if not nul:
            out += list_in(d["Lc"].obj, d["D"].nCols, "icols")
        if not tr:
            out += [("compressed", (c.old.argi(9) == 1) if comp else (c.old.argi(9) == 0))]
        return out + [("xN", d["xN"] >= 0), ("ld", And(d["xLD"] >= 1, d["yLD"] >= 1, d["xLD"] >= d["k"], d["yLD"] >= d["m"])),
                      ("x", Implies(And(d["k"] > 0, d["xN"] > 0), And(Not(d["x"].null), d["x"].off == 0, d["x"].size >= imul(d["xLD"], d["xN"] - 1) + d["k"]))),
                      ("y", Implies(And(d["m"] > 0, d["xN"] > 0), And(Not(d["y"].null), d["y"].off == 0, d["y"].size >= imul(d["yLD"], d["xN"] - 1) + d["m"])))]

    def place(d, r):
        """list position that row r of y stands for"""
        if tr or comp:
            return r
        return pos(d["Lr"], r)

    def touched(d, p, k=None):
        r = rowof(p, d["yLD"])
        b = inblock(p, d["m"], d["xN"] if k is None else k, d["yLD"])
        if not tr and not comp:
            b = And(b, member_at(d["Lr"], pos(d["Lr"], r), r))
        return b

    def rk(d, p):
        L = d["Lc"].obj if tr else d["Lr"]
        return inv(L, place(d, rowof(p, d["yLD"])))

    def prod(d, p, n):
        D, r, k = d["D"], place(d, rowof(p, d["yLD"])), colof(p, d["yLD"])
        al, one = snap(d["al"]), z3.IntVal(1)
        if tr:
            return DOTL(al, D.val.arr, d["Lc"].obj.number[r], D.leaDim, d["Lr"].number.arr, d["x"].arr, imul(d["xLD"], k), d["Lr"].iSort.arr, n)
        a0 = imul(D.leaDim, d["Lr"].number[r])
        if nul:
            return DOT(al, D.val.arr, a0, one, d["x"].arr, imul(d["xLD"], k), one, n)
        return DOTL(al, D.val.arr, a0, one, d["Lc"].obj.number.arr, d["x"].arr, imul(d["xLD"], k), d["Lc"].obj.iSort.arr, n)

    def scaled(d, p):
        return If(touched(d, p), snap0(d["be"]) * d["y"][p], d["y"][p])

    def post(c):
        d = P(c)
        y1 = c.new.argi(7)
        return [("code", c.ret == 0), ("y", forall(lambda p: Implies(p >= 0, y1[p] == If(touched(d, p), snap0(d["be"]) * d["y"][p] + prod(d, p, d["k"]), d["y"][p])), pats=lambda p: [y1[p]]))]
    v = ("trans" if tr else ("compressed" if comp else "uncompressed") + ("-allcols" if nul else ""))
    R.add(name, sig=sig, variant=v, only_variant=True, prune=True, auto=False, requires=req, ensures=post, modifies=lambda c: marr(c.old.argi(7)))
    VARI[(name, v)] = dict(P=P, prod=prod, scaled=scaled, touched=touched, rk=rk, place=place)


VARI = {}


def indexed_loops(R, name):
    """annotations of the scaling loops 0..2 and product loops 3..5, the same for all variants"""
    sig = "(const Indexlist *const, const Indexlist *const, int_t,"
    tr = name.endswith("transTimes")

    def F(c):
        f = VARI[(name, c.ex.top.variant)]
        return f, f["P"](c)

    def scal(c, cond):
        f, d = F(c)
        y1 = c.new.argi(7)
        return [("scaled", forall(lambda p: Implies(p >= 0, y1[p] == If(And(f["touched"](d, p), cond(f, d, p)), snap0(d["be"]) * d["y"][p], d["y"][p])), pats=lambda p: [y1[p]]))]

    def lim(c, hi):
        return [("r", And(0 <= c.iv, c.iv <= hi))]
    for b in ("0", "1", "2"):
        R.loop(name, b, lambda c: lim(c, c.old.argi(2)) + scal(c, lambda f, d, p: colof(p, d["yLD"]) < c.iv), sig=sig)
        R.loop(name, b + ".0", lambda c: lim(c, c.old.argi(1).obj.length if tr else c.old.argi(0).obj.length) + scal(c, lambda f, d, p: Or(colof(p, d["yLD"]) < c.v("k"), And(colof(p, d["yLD"]) == c.v("k"), f["place"](d, rowof(p, d["yLD"])) < c.iv))), sig=sig)

    def upto(c, cond, partial=None):
        f, d = F(c)
        y1 = c.new.argi(7)
        z = z3.RealVal(0)
        tail = (lambda p: If(And(f["touched"](d, p), partial(f, d, p)[0]), f["prod"](d, p, partial(f, d, p)[1]), z)) if partial else (lambda p: z)
        return [("product", forall(lambda p: Implies(p >= 0, y1[p] == f["scaled"](d, p) + If(And(f["touched"](d, p), cond(f, d, p)), f["prod"](d, p, d["k"]), tail(p))), pats=lambda p: [y1[p]]))]
    col = lambda d, p: colof(p, d["yLD"])
    for b in ("3", "4", "5"):
        R.loop(name, b, lambda c: lim(c, c.old.argi(2)) + upto(c, lambda f, d, p: col(d, p) < c.iv), sig=sig)
        if tr:      # rows outside, columns inside: every entry of y grows by one term per row
            R.loop(name, b + ".0", lambda c: lim(c, c.old.argi(0).obj.length) + upto(c, lambda f, d, p: col(d, p) < c.v("k"), lambda f, d, p: (col(d, p) == c.v("k"), c.iv)), sig=sig)
            R.loop(name, b + ".0.0", lambda c: lim(c, c.old.argi(1).obj.length) + upto(c, lambda f, d, p: col(d, p) < c.v("k"),
                   lambda f, d, p: (col(d, p) == c.v("k"), If(f["rk"](d, p) < c.iv, c.v("j") + 1, c.v("j")))), sig=sig)
        else:
            R.loop(name, b + ".0", lambda c: lim(c, c.old.argi(0).obj.length) + upto(c, lambda f, d, p: Or(col(d, p) < c.v("k"), And(col(d, p) == c.v("k"), f["rk"](d, p) < c.iv))), sig=sig)
            R.loop(name, b + ".0.0", lambda c: lim(c, F(c)[1]["k"]) + upto(c, lambda f, d, p: Or(col(d, p) < c.v("k"), And(col(d, p) == c.v("k"), f["rk"](d, p) < c.v("j"))),
                   lambda f, d, p: (And(col(d, p) == c.v("k"), f["rk"](d, p) == c.v("j")), c.iv)), sig=sig)


def setup(R):
    gemm(R, "dgemm_")
    setup_dense(R)
    for nm in ("times", "transTimes"):
        indexed_loops(R, "DenseMatrix::" + nm)
    return R
