"""C04: compressed sparse matrices, by columns (SparseMatrix) and by rows (SparseMatrixRow).
ptr[o]..ptr[o+1]: the stored entries of the o-th outer vector (column/row), idx their inner numbers, ascending."""
from qpv.dsl import *
from contracts.indexlist import wf, inv
from contracts.dense import inblock, list_in

zero = z3.RealVal(0)
one = z3.IntVal(1)
# gather: GATH(al,V,I,a,n,X,x0) = sum_{a<=i<n} al*V[i]*X[x0+I[i]]
GATH = z3.Function("GATH", Real, RA, IA, Int, Int, RA, Int, Real)
# one outer vector scattered onto inner position r: SC1(al,V,I,a,n,r,w) = sum_{a<=i<n, I[i]=r} al*V[i]*w
SC1 = z3.Function("SC1", Real, RA, IA, Int, Int, Int, Real, Real)
# all outer vectors: SC(al,V,I,P,X,x0,r,n) = sum_{o<n} SC1(al,V,I,P[o],P[o+1],r,X[x0+o])
SC = z3.Function("SC", Real, RA, IA, IA, RA, Int, Int, Int, Real)


def step(al, t, p, xy):
    return [Implies(al == 1, t == p + xy), Implies(al == -1, t == p - xy), t == p + al * xy]


def _gath(al, V, I, a, n, X, x0, depth=0):
    if depth:
        return []
    n1 = z3.simplify(n - 1)
    t = GATH(al, V, I, a, n, X, x0)
    return [Implies(n <= a, t == 0), Implies(n > a, And(step(al, t, GATH(al, V, I, a, n1, X, x0), V[n1] * X[z3.simplify(x0 + I[n1])])))]


def _sc1(al, V, I, a, n, r, w, depth=0):
    if depth:
        return []
    n1 = z3.simplify(n - 1)
    t, p = SC1(al, V, I, a, n, r, w), SC1(al, V, I, a, n1, r, w)
    return [Implies(n <= a, t == 0), Implies(And(n > a, I[n1] != r), t == p), Implies(And(n > a, I[n1] == r), And(step(al, t, p, V[n1] * w)))]


def _sc(al, V, I, P, X, x0, r, n, depth=0):
    if depth:
        return []
    n1 = z3.simplify(n - 1)
    return [Implies(n <= 0, SC(al, V, I, P, X, x0, r, n) == 0),
            Implies(n > 0, SC(al, V, I, P, X, x0, r, n) == SC(al, V, I, P, X, x0, r, n1) + SC1(al, V, I, P[n1], P[n], r, X[z3.simplify(x0 + n1)]))]


# the stored entry with inner number r among I[a..b) (Hilbert choice), and the value it stands for
EP = z3.Function("EP", IA, Int, Int, Int, Int)


def _ep(I, a, b, r, depth=0):
    e = EP(I, a, b, r)
    return [] if depth else [forall(lambda i: Implies(And(a <= i, i < b, I[i] == r), And(a <= e, e < b, I[e] == r)), pats=lambda i: [I[i]])]


def entry(K, D, o, r):
    a, b, I = K.ptr(D)[o], K.ptr(D)[o + 1], K.idx(D)
    e = EP(I.arr, a, b, r)
    return If(And(a <= e, e < b, I[e] == r), D.val[e], zero)


# the entry after writing V[a..n) over each other: what a dense copy contains
ENT = z3.Function("ENT", RA, IA, Int, Int, Int, Real)


def _ent(V, I, a, n, r, depth=0):
    if depth:
        return []
    n1 = z3.simplify(n - 1)
    t = ENT(V, I, a, n, r)
    return [Implies(n <= a, t == 0), Implies(n > a, t == If(I[n1] == r, V[n1], ENT(V, I, a, n1, r)))]


register_spec(EP, _ep)
register_spec(ENT, _ent)
register_spec(GATH, _gath)
register_spec(SC1, _sc1)
register_spec(SC, _sc)


class Cls:
    def __init__(s, name, ptr, idx, outer, inner):
        s.name, s._p, s._i, s._o, s._n = name, ptr, idx, outer, inner

    def ptr(s, D): return getattr(D, s._p)
    def idx(s, D): return getattr(D, s._i)
    def nO(s, D): return getattr(D, s._o)
    def nI(s, D): return getattr(D, s._n)


COL = Cls("SparseMatrix", "jc", "ir", "nCols", "nRows")
ROW = Cls("SparseMatrixRow", "jr", "ic", "nRows", "nCols")


def shape(K, D, sort=True):
    p, x, v, nO, nI = K.ptr(D), K.idx(D), D.val, K.nO(D), K.nI(D)
    if p.none:
        return [("ptr", z3.BoolVal(False))]
    end = p[nO]
    return [("dims", And(nO >= 0, nI >= 0)), ("ptr", And(Not(p.null), p.off == 0, p.size >= nO + 1)),
            ("start", p[z3.IntVal(0)] >= 0), ("ascending", forall(lambda i, j: Implies(And(0 <= i, i <= j, j <= nO), p[i] <= p[j]), 2, pats=lambda i, j: [[p[i], p[j]]])),
            ("idx", Implies(end > 0, And(Not(x.null), x.off == 0, x.size >= end, Not(v.null), v.off == 0, v.size >= end))),
            ("idx-range", allin(0, end, lambda k: rng(x[k], 0, nI), pats=lambda k: [x[k]]))] + (
            [("sorted", forall(lambda o, i, j: Implies(And(rng(o, 0, nO), p[o] <= i, i < j, j < p[o + 1]), x[i] < x[j]), 3, pats=lambda o, i, j: [[p[o], x[i], x[j]]]))] if sort else [])


def diaginfo(K, D, jd, upto=None, lim=None):
    """jd[o]: first stored entry of vector o with inner number at least o"""
    p, x = K.ptr(D), K.idx(D)
    n = K.nO(D) if upto is None else upto
    return [("jd-range", allin(0, n, lambda o: And(p[o] <= jd[o], jd[o] <= p[o + 1]), pats=lambda o: [jd[o]])),
            ("jd-below", forall(lambda o, i: Implies(And(rng(o, 0, n), p[o] <= i, i < jd[o]), x[i] < o), 2, pats=lambda o, i: [[jd[o], x[i]]])),
            ("jd-at", allin(0, n, lambda o: Implies(jd[o] < p[o + 1], x[jd[o]] >= o), pats=lambda o: [jd[o]]))]


def is_entry(K, D, o, r, v):
    """v is the entry of outer vector o at inner position r"""
    p, x = K.ptr(D), K.idx(D)
    return And(forall(lambda i: Implies(And(p[o] <= i, i < p[o + 1], x[i] == r), v == D.val[i]), pats=lambda i: [x[i]]),
               Or(v == 0, Not(forall(lambda i: Implies(And(p[o] <= i, i < p[o + 1]), x[i] != r), pats=lambda i: [x[i]]))))


def whole(R, K, nm, gather):
    name = K.name + "::" + nm
    sig = "(int_t, real_t, const real_t *, int_t, real_t, real_t *, int_t) const"

    def P(c):
        D = c.old.this
        return dict(D=D, xN=c.old.argi(0), al=c.old.argi(1), x=c.old.argi(2), xLD=c.old.argi(3), be=c.old.argi(4), y=c.old.argi(5), y1=c.new.argi(5), yLD=c.old.argi(6),
                    m=K.nO(D) if gather else K.nI(D), k=K.nI(D) if gather else K.nO(D))

    def req(c):
        d = P(c)
        return shape(K, d["D"], False) + [("xN", d["xN"] >= 0), ("ld", And(d["xLD"] >= 1, d["yLD"] >= 1, d["xLD"] >= d["k"], d["yLD"] >= d["m"])),
                ("x", Implies(And(d["k"] > 0, d["xN"] > 0), And(Not(d["x"].null), d["x"].off == 0, d["x"].size >= imul(d["xLD"], d["xN"] - 1) + d["k"]))),
                ("y", Implies(And(d["m"] > 0, d["xN"] > 0), And(Not(d["y"].null), d["y"].off == 0, d["y"].size >= imul(d["yLD"], d["xN"] - 1) + d["m"])))]

    def scaled(d, p):
        return If(inblock(p, d["m"], d["xN"], d["yLD"]), snap0(d["be"]) * d["y"][p], d["y"][p])

    def prod(d, p, n, partial=None):
        """value after the outer vectors below n (gather: n entries of the vector), plus the entries below `partial` of vector n"""
        D, j, k, al = d["D"], rowof(p, d["yLD"]), colof(p, d["yLD"]), snap(d["al"])
        V, I, Q, x0 = D.val.arr, K.idx(D).arr, K.ptr(D), imul(d["xLD"], k)
        if gather:
            return GATH(al, V, I, Q[j], Q[j + 1] if n is None else n, d["x"].arr, x0)
        r = SC(al, V, I, Q.arr, d["x"].arr, x0, j, n)
        return r if partial is None else r + SC1(al, V, I, Q[n], partial, j, d["x"][z3.simplify(x0 + n)])

    def total(d, p):
        return prod(d, p, None) if gather else prod(d, p, K.nO(d["D"]))

    def ymap(d, val):
        return [("y", forall(lambda p: Implies(p >= 0, d["y1"][p] == scaled(d, p) + If(inblock(p, d["m"], d["xN"], d["yLD"]), val(p), zero)), pats=lambda p: [d["y1"][p]]))]
    R.add(name, sig=sig, auto=False, requires=req, modifies=lambda c: marr(c.old.argi(5)), ensures=lambda c: [("code", c.ret == 0)] + ymap(P(c), lambda p: total(P(c), p)))

    def lim(c, hi, lo=0):
        return [("r", And(lo <= c.iv, c.iv <= hi))]

    def scal(c, cond):
        d = P(c)
        return [("scaled", forall(lambda p: Implies(p >= 0, d["y1"][p] == If(And(inblock(p, d["m"], d["xN"], d["yLD"]), cond(d, p)), snap0(d["be"]) * d["y"][p], d["y"][p])), pats=lambda p: [d["y1"][p]]))]
    col, row = lambda d, p: colof(p, d["yLD"]), lambda d, p: rowof(p, d["yLD"])
    for b in ("0", "1", "2"):
        R.loop(name, b, lambda c: lim(c, P(c)["xN"]) + scal(c, lambda d, p: col(d, p) < c.iv), sig=sig)
        R.loop(name, b + ".0", lambda c: lim(c, P(c)["m"]) + scal(c, lambda d, p: Or(col(d, p) < c.v("k"), And(col(d, p) == c.v("k"), row(d, p) < c.iv))), sig=sig)

    for b in ("3", "4", "5"):
        R.loop(name, b, lambda c: lim(c, P(c)["xN"]) + ymap(P(c), lambda p: If(col(P(c), p) < c.iv, total(P(c), p), zero)), sig=sig)

        def mid(c):
            d = P(c)
            if gather:
                return lim(c, K.nO(d["D"])) + ymap(d, lambda p: If(Or(col(d, p) < c.v("k"), And(col(d, p) == c.v("k"), row(d, p) < c.iv)), total(d, p), zero))
            return lim(c, K.nO(d["D"])) + ymap(d, lambda p: If(col(d, p) < c.v("k"), total(d, p), If(col(d, p) == c.v("k"), prod(d, p, c.iv), zero)))

        def inner(c):
            d = P(c)
            j, Q = c.v("j" if gather or K is COL else "i"), K.ptr(d["D"])
            o = [("r", And(Q[j] <= c.iv, c.iv <= Q[j + 1], 0 <= Q[j], Q[j + 1] <= Q[K.nO(d["D"])]))]
            if gather:
                return o + ymap(d, lambda p: If(Or(col(d, p) < c.v("k"), And(col(d, p) == c.v("k"), row(d, p) < j)), total(d, p), If(And(col(d, p) == c.v("k"), row(d, p) == j), prod(d, p, c.iv), zero)))
            return o + ymap(d, lambda p: If(col(d, p) < c.v("k"), total(d, p), If(col(d, p) == c.v("k"), prod(d, p, j, c.iv), zero)))
        R.loop(name, b + ".0", mid, sig=sig)
        R.loop(name, b + ".0.0", inner, sig=sig)


def simple(R, K):
    q = K.name + "::"
    me = lambda c: c.old.this

    # diagonal information
    R.add(q + "createDiagInfo", requires=lambda c: shape(K, me(c), False), modifies=lambda c: [mnew(c.old.this, "jd")], only_variant=True,
          ensures=lambda c: [(a, Implies(c.old.this.jd.null, b)) for a, b in diaginfo(K, c.old.this, c.ret)] + [("size", Implies(c.old.this.jd.null, c.ret.size == K.nO(c.old.this)))])
    outer, inner = ("j", "i") if K is COL else ("i", "j")
    R.loop(q + "createDiagInfo", "0", lambda c: [("r", rng(c.iv, 0, K.nO(me(c)) + 1))] + diaginfo(K, me(c), c.new.this.jd, c.iv))
    R.loop(q + "createDiagInfo", "0.0", lambda c: [("r", And(K.ptr(me(c))[c.v(outer)] <= c.iv, c.iv <= K.ptr(me(c))[c.v(outer) + 1])),
           ("below", forall(lambda k: Implies(And(K.ptr(me(c))[c.v(outer)] <= k, k < c.iv), K.idx(me(c))[k] < c.v(outer)), pats=lambda k: [K.idx(me(c))[k]]))])

    def withdiag(c):
        D = me(c)
        return shape(K, D) + ([("no-jd", z3.BoolVal(True))] if D.jd.none else [(a, Implies(Not(D.jd.null), b)) for a, b in [("jd", And(D.jd.size >= K.nO(D), D.jd.off == 0))] + diaginfo(K, D, D.jd)])
    R.add(q + "diag", pure=True, requires=lambda c: withdiag(c) + [("i", And(0 <= c.old.argi(0), c.old.argi(0) < K.nO(me(c)), c.old.argi(0) < K.nI(me(c))))],
          ensures=lambda c: [("none", Implies(me(c).jd.null, c.ret == z3.RealVal("1e20"))), ("value", Implies(Not(me(c).jd.null), is_entry(K, me(c), c.old.argi(0), c.old.argi(0), c.ret)))])

    # off-diagonal entries
    def isdiag(c):
        D = me(c)
        p, x = K.ptr(D), K.idx(D)
        off = lambda n: forall(lambda o, i: Implies(And(rng(o, 0, n), p[o] <= i, i < p[o + 1]), x[i] == o), 2, pats=lambda o, i: [[p[o], x[i]]])
        return off
    R.add(q + "isDiag", pure=True, requires=lambda c: shape(K, me(c)), ensures=lambda c: [("bool", Or(c.ret == 0, c.ret == 1)), ("diagonal", Implies(c.ret == 1, And(me(c).nRows == me(c).nCols, isdiag(c)(K.nO(me(c)))))),
          ("not", Implies(And(c.ret == 0, me(c).nRows == me(c).nCols), Not(allin(0, K.nO(me(c)), lambda o: And(K.ptr(me(c))[o + 1] <= K.ptr(me(c))[o] + 1, Implies(K.ptr(me(c))[o + 1] == K.ptr(me(c))[o] + 1, K.idx(me(c))[K.ptr(me(c))[o]] == o)), pats=lambda o: [K.ptr(me(c))[o]]))))])
    R.loop(q + "isDiag", "0", lambda c: [("r", rng(c.iv, 0, K.nO(me(c)) + 1)), ("diag", isdiag(c)(c.iv))])

    # a multiple of the identity is added to the stored diagonal entries, or nothing is changed
    def dmin(D):
        return If(K.nO(D) < K.nI(D), K.nO(D), K.nI(D))

    def have(D, n):
        p, x = K.ptr(D), K.idx(D)
        return allin(0, n, lambda o: And(D.jd[o] < p[o + 1], x[D.jd[o]] == o), pats=lambda o: [D.jd[o]])

    def changed(c, n):
        D, N = me(c), c.new.this
        p, x = K.ptr(D), K.idx(D)
        return [("diagonal", forall(lambda o: Implies(rng(o, 0, n), N.val[D.jd[o]] == D.val[D.jd[o]] + c.old.argi(0)), pats=lambda o: [D.jd[o]])),
                ("others", forall(lambda o, i: Implies(And(rng(o, 0, K.nO(D)), p[o] <= i, i < p[o + 1], Or(o >= n, i != D.jd[o])), N.val[i] == D.val[i]), 2, pats=lambda o, i: [[p[o], N.val[i]]])),
                ("outside", forall(lambda i: Implies(Or(i < p[one - 1], i >= p[K.nO(D)]), N.val[i] == D.val[i]), pats=lambda i: [N.val[i]]))]

    def addpost(c):
        D, N, al = me(c), c.new.this, c.old.argi(0)
        if D.jd.none:
            return []
        same = forall(lambda i: N.val[i] == D.val[i], pats=lambda i: [N.val[i]])
        small = absr(al) <= ZERO
        return [("code0", Implies(And(Not(D.jd.null), small), c.ret == 0)), ("nodiag", Implies(D.jd.null, And(c.ret != 0, same))), ("refused", Implies(And(Not(D.jd.null), c.ret != 0), And(Not(have(D, dmin(D))), same))), ("tiny", Implies(small, same))] + [
            ("ok-" + a, Implies(And(Not(D.jd.null), Not(small), c.ret == 0), b)) for a, b in [("have", have(D, dmin(D)))] + changed(c, dmin(D))]
    R.add(q + "addToDiag", requires=withdiag, modifies=lambda c: marr(c.old.this.val), ensures=addpost)
    R.loop(q + "addToDiag", "0", lambda c: [("r", rng(c.iv, 0, dmin(me(c)) + 1)), ("have", have(me(c), c.iv))])
    R.loop(q + "addToDiag", "1", lambda c: [("r", rng(c.iv, 0, dmin(me(c)) + 1))] + changed(c, c.iv))


def copies(R, K):
    """full(), and rows and columns in dense form"""
    q = K.name + "::"
    me = lambda c: c.old.this
    ow, iw = ("j", "i") if K is COL else ("i", "j")
    out = (lambda D, p: rowof(p, D.nCols)) if K is COL else (lambda D, p: colof(p, D.nCols))
    inn = (lambda D, p: colof(p, D.nCols)) if K is COL else (lambda D, p: rowof(p, D.nCols))

    def fmap(D, v, val):
        return [("v", forall(lambda p: Implies(And(rng(p, 0, imul(D.nRows, D.nCols)), D.nCols > 0), v[p] == val(p)), pats=lambda p: [v[p]]))]

    def ent(D, p, n=None):
        o = out(D, p)
        return ENT(D.val.arr, K.idx(D).arr, K.ptr(D)[o], K.ptr(D)[o + 1] if n is None else n, inn(D, p))
    R.add(q + "full", only_variant=True, auto=False, requires=lambda c: shape(K, me(c), False), ensures=lambda c: [("size", c.ret.size == imul(me(c).nRows, me(c).nCols)), ("fresh", c.fresh(c.ret))] + fmap(me(c), c.ret, lambda p: ent(me(c), p)))
    R.loop(q + "full", "0", lambda c: [("r", rng(c.iv, 0, imul(me(c).nRows, me(c).nCols) + 1)), ("zero", allin(0, c.iv, lambda k: c.v("v")[k] == 0, pats=lambda k: [c.v("v")[k]]))])
    R.loop(q + "full", "1", lambda c: [("r", rng(c.iv, 0, K.nO(me(c)) + 1))] + fmap(me(c), c.v("v"), lambda p: If(out(me(c), p) < c.iv, ent(me(c), p), zero)))

    def inner(c):
        D, o = me(c), c.v(ow)
        Q = K.ptr(D)
        return [("r", And(Q[o] <= c.iv, c.iv <= Q[o + 1], 0 <= Q[o], Q[o + 1] <= Q[K.nO(D)]))] + fmap(D, c.v("v"), lambda p: If(out(D, p) < o, ent(D, p), If(out(D, p) == o, ent(D, p, c.iv), zero)))
    R.loop(q + "full", "1.0", inner)

    # across the storage direction: one search per vector
    nm = q + ("getRow" if K is COL else "getCol")

    def target(c):
        return c.new.argi(3), c.old.argi(3), snap(c.old.argi(2)), c.old.argi(0)

    def areq(c, nul):
        L = c.old.argi(1)
        o = shape(K, me(c)) + [("num", rng(c.old.argi(0), 0, K.nI(me(c)))), ("list", L.null if nul else Not(L.null))]
        o += [("out", And(Not(c.old.argi(3).null), c.old.argi(3).off == 0, c.old.argi(3).size >= (K.nO(me(c)) if nul else L.obj.length)))]
        return o + ([] if nul else list_in(L.obj, K.nO(me(c)), "list"))

    def apost(c, nul):
        y, y0, al, r = target(c)
        L = c.old.argi(1)
        n = K.nO(me(c)) if nul else L.obj.length
        return [("code", c.ret == 0), ("values", allin(0, n, lambda k: y[k] == al * entry(K, me(c), k if nul else L.obj.number[k], r), pats=lambda k: [y[k]])),
                ("rest", forall(lambda k: Implies(Or(k < 0, k >= n), y[k] == y0[k]), pats=lambda k: [y[k]]))]
    for nul in (False, True):
        R.add(nm, variant="all" if nul else "listed", only_variant=True, prune=True, auto=False, requires=lambda c, nul=nul: areq(c, nul), ensures=lambda c, nul=nul: apost(c, nul), modifies=lambda c: marr(c.old.argi(3)))
    for b in range(3):
        def outerl(c):
            nul = c.ex.top.variant == "all"
            y, y0, al, r = target(c)
            D = me(c)
            if nul:
                return [("r", rng(c.iv, 0, K.nO(D) + 1)), ("values", allin(0, c.iv, lambda k: y[k] == al * entry(K, D, k, r), pats=lambda k: [y[k]])),
                        ("rest", forall(lambda k: Implies(Or(k < 0, k >= c.iv), y[k] == y0[k]), pats=lambda k: [y[k]]))]
            L = c.old.argi(1).obj
            n = L.length
            return [("r", rng(c.iv, 0, n + 1)), ("values", allin(0, n, lambda k: Implies(inv(L, k) < c.iv, y[k] == al * entry(K, D, L.number[k], r)), pats=lambda k: [y[k]])),
                    ("rest", forall(lambda k: Implies(Or(k < 0, k >= n), y[k] == y0[k]), pats=lambda k: [y[k]]))]

        def scan(c):
            Q, o, r = K.ptr(me(c)), c.v("j"), c.old.argi(0)
            return [("r", And(Q[o] <= c.iv, c.iv <= Q[o + 1], 0 <= Q[o], Q[o + 1] <= Q[K.nO(me(c))])),
                    ("below", forall(lambda k: Implies(And(Q[o] <= k, k < c.iv), K.idx(me(c))[k] < r), pats=lambda k: [K.idx(me(c))[k]]))]
        R.loop(nm, str(b), outerl)
        R.loop(nm, str(b) + ".0", scan)

    # along the storage direction: the list and the vector are merged
    nm2 = q + ("getCol" if K is COL else "getRow")
    vi, vl = ("i", "j") if K is COL else ("j", "i")

    def mreq(c):
        L = c.old.argi(1)
        return shape(K, me(c)) + [("num", rng(c.old.argi(0), 0, K.nO(me(c)))), ("list", Not(L.null))] + list_in(L.obj, K.nI(me(c)), "list") + [
            ("out", And(Not(c.old.argi(3).null), c.old.argi(3).off == 0, c.old.argi(3).size >= L.obj.length))]

    def mvals(c, upto):
        y, y0, al, o = target(c)
        L = c.old.argi(1).obj
        return [("values", allin(0, L.length, lambda k: Implies(inv(L, k) < upto, y[k] == al * entry(K, me(c), o, L.number[k])), pats=lambda k: [y[k]])),
                ("rest", forall(lambda k: Implies(Or(k < 0, k >= L.length), y[k] == y0[k]), pats=lambda k: [y[k]]))]

    def merge(c, end=False):
        L, o, Q, I = c.old.argi(1).obj, c.old.argi(0), K.ptr(me(c)), K.idx(me(c))
        i, j = c.v(vi), c.v(vl)
        return [("r", And(Q[o] <= i, i <= Q[o + 1], 0 <= Q[o], Q[o + 1] <= Q[K.nO(me(c))], 0 <= j, j <= L.length)),
                ("passed", forall(lambda p, k: Implies(And(Q[o] <= p, p < i, rng(k, j, L.length)), I[p] < L.number[L.iSort[k]]), 2, pats=lambda p, k: [[I[p], L.iSort[k]]]))] + mvals(c, j) + ([("end", Or(i == Q[o + 1], j == L.length))] if end else [])
    R.add(nm2, only_variant=True, variant="listed", prune=True, auto=False, requires=mreq, modifies=lambda c: marr(c.old.argi(3)), ensures=lambda c: [("code", c.ret == 0)] + mvals(c, c.old.argi(1).obj.length))
    def mloop(b):
        def f(c):
            if c.ex.top.variant == "listed":
                return merge(c, b == 3)
            if b == 0:
                return [("r", rng(c.iv, 0, K.nI(me(c)) + 1)), ("zero", allin(0, c.iv, lambda k: c.new.argi(3)[k] == 0, pats=lambda k: [c.new.argi(3)[k]])),
                        ("rest", forall(lambda k: Implies(Or(k < 0, k >= c.iv), c.new.argi(3)[k] == c.old.argi(3)[k]), pats=lambda k: [c.new.argi(3)[k]]))]
            return [("r", And(K.ptr(me(c))[c.old.argi(0)] <= c.iv, c.iv <= K.ptr(me(c))[c.old.argi(0) + 1]))] + wmap(c, c.iv)
        R.loop(nm2, str(b), f)
    for b in range(4):
        mloop(b)
    if K is ROW:
        # the whole row
        def wreq(c):
            L = c.old.argi(1)
            return shape(K, me(c), False) + [("num", rng(c.old.argi(0), 0, K.nO(me(c)))), ("all", L.null), ("out", Implies(K.nI(me(c)) > 0, And(Not(c.old.argi(3).null), c.old.argi(3).off == 0, c.old.argi(3).size >= K.nI(me(c)))))]

        def wmap(c, n):
            y, y0, al, o = target(c)
            D = me(c)
            return [("values", allin(0, K.nI(D), lambda k: y[k] == al * ENT(D.val.arr, K.idx(D).arr, K.ptr(D)[o], n, k), pats=lambda k: [y[k]])),
                    ("rest", forall(lambda k: Implies(Or(k < 0, k >= K.nI(D)), y[k] == y0[k]), pats=lambda k: [y[k]]))]
        R.add(nm2, only_variant=True, variant="all", prune=True, auto=False, requires=wreq, modifies=lambda c: marr(c.old.argi(3)), ensures=lambda c: [("code", c.ret == 0)] + wmap(c, K.ptr(me(c))[c.old.argi(0) + 1]))


def norms(R, K):
    from contracts.dense import norm_post
    q = K.name + "::"
    me = lambda c: c.old.this
    R.add(q + "getNorm", pure=True, requires=lambda c: shape(K, me(c), False), ensures=lambda c: norm_post(c, me(c).val.arr, z3.IntVal(0), K.ptr(me(c))[K.nO(me(c))], c.old.argi(0)))
    if K is ROW:
        R.add(q + "getRowNorm", sig="real_t (int_t, int_t) const", pure=True, requires=lambda c: shape(K, me(c), False) + [("rNum", rng(c.old.argi(0), 0, me(c).nRows))],
              ensures=lambda c: norm_post(c, me(c).val.arr, me(c).jr[c.old.argi(0)], me(c).jr[c.old.argi(0) + 1] - me(c).jr[c.old.argi(0)], c.old.argi(1)))
        one_ = z3.IntVal(1)

        def rn(c, upto):
            D, v, ty = me(c), c.new.argi(0), c.old.argi(1)
            return [("norms", allin(0, upto, lambda i: And(Implies(ty == 1, v[i] == SABS(D.val.arr, D.jr[i], D.jr[i + 1] - D.jr[i])),
                     Implies(ty == 2, And(v[i] >= 0, v[i] * v[i] == DOT(z3.RealVal(1), D.val.arr, D.jr[i], one_, D.val.arr, D.jr[i], one_, D.jr[i + 1] - D.jr[i])))), pats=lambda i: [v[i]])),
                    ("rest", forall(lambda i: Implies(Or(i < 0, i >= upto), v[i] == c.old.argi(0)[i]), pats=lambda i: [v[i]]))]
        R.add(q + "getRowNorm", sig="(real_t *, int_t)", only_variant=True, requires=lambda c: shape(K, me(c), False) + [("out", Implies(me(c).nRows > 0, And(Not(c.old.argi(0).null), c.old.argi(0).off == 0, c.old.argi(0).size >= me(c).nRows)))],
              modifies=lambda c: marr(c.old.argi(0)), ensures=lambda c: [("code", c.ret == 0)] + rn(c, me(c).nRows))
        R.loop(q + "getRowNorm", "0", lambda c: [("r", rng(c.iv, 0, me(c).nRows + 1))] + rn(c, c.iv), sig="(real_t *, int_t)")
    else:
        def sv(c, n):
            D, N = c.old.this, c.new.this
            return [("val", forall(lambda i: N.val[i] == If(rng(i, 0, n), c.old.argi(0)[i], D.val[i]), pats=lambda i: [N.val[i]]))]
        R.add(q + "setVal", requires=lambda c: shape(K, me(c), False) + [("new", Implies(K.ptr(me(c))[K.nO(me(c))] > 0, And(Not(c.old.argi(0).null), c.old.argi(0).off == 0, c.old.argi(0).size >= K.ptr(me(c))[K.nO(me(c))])))],
              modifies=lambda c: marr(c.old.this.val), ensures=lambda c: sv(c, K.ptr(me(c))[K.nO(me(c))]))
        R.loop(q + "setVal", "0", lambda c: [("r", rng(c.iv, 0, K.ptr(me(c))[K.nO(me(c))] + 1))] + sv(c, c.iv))


def setup(R):
    norms(R, COL)
    norms(R, ROW)
    copies(R, COL)
    copies(R, ROW)
    whole(R, COL, "times", False)
    whole(R, COL, "transTimes", True)
    whole(R, ROW, "times", True)
    whole(R, ROW, "transTimes", False)
    simple(R, COL)
    simple(R, ROW)
    return R
