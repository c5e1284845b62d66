"""C15: the step direction of a QP with bounds solves the linearised optimality conditions; a step along it keeps the QP optimal."""
from qpv.dsl import *
from contracts.linalg import HM, one, i1, sq, vec
from contracts.homotopy import arrs, lists, me, nV, z0

Bo = z3.BoolSort()
# (row `row` of the Hessian restricted to the listed columns) times v: sum_{k<m} H[row,F[k]]*v[k]
HS = z3.Function("HS", IA, RA, Int, Int, Real)


def hs_unfold(F, v, row, m, depth=0):
    if depth > 0:
        return []
    m1 = z3.simplify(m - 1)
    return [Implies(m <= 0, HS(F, v, row, m) == 0), Implies(m > 0, HS(F, v, row, m) == HS(F, v, row, m1) + rmul(HM(row, F[m1]), v[m1]))]


register_spec(HS, hs_unfold)
LSOL = z3.Function("LSOL", RA, Int, Int, RA, RA, Bo)     # t solves R't = b
USOL = z3.Function("USOL", RA, Int, Int, RA, RA, Bo)     # d solves R d = t
GRAM = z3.Function("GRAM", RA, IA, Int, Int, Bo)         # R'R is the (symmetric) Hessian restricted to the listed variables
HDIAG = z3.Function("HDIAG", Real, IA, Int, Bo)          # the Hessian is a multiple of the identity, the listed variables are distinct

# definitions of these predicates; the first two are exactly the postconditions proved for backsolveR in contracts/linalg.py
lsol = lambda R, n, k, t, b, i: Implies(rng(i, 0, k), DOT(one, R, imul(n, i), i1, t, z3.IntVal(0), i1, i) + R[imul(n, i) + i] * t[i] == b[i])
usol = lambda R, n, k, d, t, i: Implies(rng(i, 0, k), DOT(one, R, imul(n, i + 1) + i, n, d, i + 1, i1, k - i - 1) + R[imul(n, i) + i] * d[i] == t[i])
gram = lambda R, F, n, k, i, j: Implies(And(0 <= i, i <= j, j < k), And(DOT(one, R, imul(n, i), i1, R, imul(n, j), i1, i) + R[imul(n, i) + i] * R[imul(n, j) + i] == HM(F[i], F[j]), HM(F[i], F[j]) == HM(F[j], F[i])))
hdiag = lambda al, F, k, i, j: Implies(And(rng(i, 0, k), rng(j, 0, k)), HM(F[i], F[j]) == If(i == j, al, z0))

TAIL = z3.Function("TAIL", RA, Int, RA, Int, Int, Real)        # sum_{i<=j<m} R[i,j]*d[j]
WS = z3.Function("WS", RA, Int, RA, Int, Int, Int, Real)       # sum_{i<q} R[i,c]*TAIL(i,m)


def tail_unfold(R, n, d, i, m):
    return [Implies(m <= i, TAIL(R, n, d, i, m) == 0), Implies(m > i, TAIL(R, n, d, i, m) == TAIL(R, n, d, i, m - 1) + R[imul(n, m - 1) + i] * d[m - 1])]


def ws_unfold(R, n, d, c, q, m):
    return [Implies(q <= 0, WS(R, n, d, c, q, m) == 0), Implies(q > 0, WS(R, n, d, c, q, m) == WS(R, n, d, c, q - 1, m) + R[imul(n, c) + q - 1] * TAIL(R, n, d, q - 1, m))]


def dot_unfold(A, a0, da, B, b0, db, m):
    """m >= 0: one step from m to m+1"""
    return [DOT(one, A, a0, da, B, b0, db, 0) == 0, Implies(m >= 0, DOT(one, A, a0, da, B, b0, db, m + 1) == DOT(one, A, a0, da, B, b0, db, m) + A[a0 + imul(da, m)] * B[b0 + imul(db, m)])]


def lemmas():
    R, d, t, b, v = z3.Consts("R!D d!D t!D b!D v!D", RA)
    F = z3.Const("F!D", IA)
    n, k, c, q, m, i, row = z3.Ints("n!D k!D c!D q!D m!D i!D row!D")
    x, al = z3.Reals("x!D al!D")
    I = z3.IntVal
    # a changed entry
    frame = lambda m: HS(F, z3.Store(v, i, x), row, m) == HS(F, v, row, m) + If(rng(i, 0, m), HM(row, F[i]) * (x - v[i]), z0)
    unf = lambda w, m: [Implies(m <= 0, HS(F, w, row, m) == 0), Implies(m >= 0, HS(F, w, row, m + 1) == HS(F, w, row, m) + HM(row, F[m]) * w[m])]
    both = lambda m: unf(v, m) + unf(z3.Store(v, i, x), m)
    register_lemma("listed-row-update", ["HS"], z3.ForAll([F, v, i, x, row, m], frame(m), patterns=[HS(F, z3.Store(v, i, x), row, m)]), [([m <= 0] + both(m), frame(m)), ([m >= 0, frame(m)] + both(m), frame(m + 1))])

    # P1: the tail sums are the rows of R d = t
    rowd = lambda m, i: DOT(one, R, imul(n, i + 1) + i, n, d, i + 1, i1, m - i - 1) + R[imul(n, i) + i] * d[i]
    p1 = lambda m, i=i: TAIL(R, n, d, i, m) == rowd(m, i)
    D = lambda m: dot_unfold(R, imul(n, i + 1) + i, n, d, i + 1, i1, m)
    o = [([m == i + 1] + tail_unfold(R, n, d, i, i + 1) + tail_unfold(R, n, d, i, i) + D(I(0)), p1(m)),
         ([m >= i + 1, p1(m)] + tail_unfold(R, n, d, i, m + 1) + D(m - i - 1) + [DOT(one, R, imul(n, i + 1) + i, n, d, i + 1, i1, m - i - 1 + 1) == DOT(one, R, imul(n, i + 1) + i, n, d, i + 1, i1, m + 1 - i - 1)], p1(m + 1))]
    # P2: one more column
    cc = lambda c, m, q: DOT(one, R, imul(n, c), i1, R, imul(n, m), i1, q)
    p2 = lambda q: WS(R, n, d, c, q, m + 1) == WS(R, n, d, c, q, m) + If(q <= m + 1, cc(c, m, q), cc(c, m, m + 1)) * d[m]
    W = lambda q: ws_unfold(R, n, d, c, q, m) + ws_unfold(R, n, d, c, q, m + 1)
    o += [([m >= 0, q == 0] + W(q) + dot_unfold(R, imul(n, c), i1, R, imul(n, m), i1, I(0)), p2(q)),
          ([m >= 0, q >= 0, p2(q)] + W(q + 1) + tail_unfold(R, n, d, q, m + 1) + tail_unfold(R, n, d, q, m) + dot_unfold(R, imul(n, c), i1, R, imul(n, m), i1, q), p2(q + 1))]
    # P3: no column
    p3 = lambda q: WS(R, n, d, c, q, I(0)) == 0
    o += [([q <= 0] + ws_unfold(R, n, d, c, q, I(0)), p3(q)), ([q >= 0, p3(q)] + ws_unfold(R, n, d, c, q + 1, I(0)) + tail_unfold(R, n, d, q, I(0)), p3(q + 1))]
    # P4: order of the factors
    p4 = lambda q: cc(c, m, q) == cc(m, c, q)
    du = lambda q: dot_unfold(R, imul(n, c), i1, R, imul(n, m), i1, q) + dot_unfold(R, imul(n, m), i1, R, imul(n, c), i1, q)
    o += [([q == 0] + du(I(0)), p4(q)), ([q >= 0, p4(q)] + du(q), p4(q + 1))]
    # P5: R'R d is the Hessian times d
    hu = lambda m: [Implies(m <= 0, HS(F, d, F[c], m) == 0), Implies(m >= 0, HS(F, d, F[c], m + 1) == HS(F, d, F[c], m) + HM(F[c], F[m]) * d[m])]
    p5 = lambda m: WS(R, n, d, c, c + 1, m) == HS(F, d, F[c], m)
    o += [([m == 0, rng(c, 0, k), p3(c + 1)] + hu(I(0)), p5(m)),
          ([rng(m, 0, k), rng(c, 0, k), p5(m), p2(c + 1), p4(m), gram(R, F, n, k, c, m), gram(R, F, n, k, m, c)] + hu(m) + dot_unfold(R, imul(n, c), i1, R, imul(n, m), i1, c) + dot_unfold(R, imul(n, c), i1, R, imul(n, m), i1, m), p5(m + 1))]
    # P6: R' (R d) = R' t
    dt = lambda q: DOT(one, R, imul(n, c), i1, t, I(0), i1, q)
    p6 = lambda q: WS(R, n, d, c, q, k) == dt(q)
    dtu = lambda q: dot_unfold(R, imul(n, c), i1, t, I(0), i1, q)
    o += [([q == 0] + ws_unfold(R, n, d, c, q, k) + dtu(I(0)), p6(q)),
          ([q >= 0, q < k, p6(q), usol(R, n, k, d, t, q), p1(k, q)] + ws_unfold(R, n, d, c, q + 1, k) + dtu(q), p6(q + 1))]
    st = Implies(And(LSOL(R, n, k, t, b), USOL(R, n, k, d, t), GRAM(R, F, n, k), rng(c, 0, k)), HS(F, d, F[c], k) == b[c])
    o += [([rng(c, 0, k), lsol(R, n, k, t, b, c), p5(k), p6(c + 1)] + dtu(c), HS(F, d, F[c], k) == b[c])]
    register_lemma("factor-solves-hessian", ["HS", "LSOL", "USOL", "GRAM"], z3.ForAll([R, F, n, k, d, t, b, c], st, patterns=[z3.MultiPattern(LSOL(R, n, k, t, b), USOL(R, n, k, d, t), GRAM(R, F, n, k), HS(F, d, F[c], k))]), o)

    # multiples of the identity
    p7 = lambda m: Implies(And(rng(c, 0, k), m <= k), HS(F, v, F[c], m) == If(c < m, al * v[c], z0))
    hv = lambda m: [Implies(m <= 0, HS(F, v, F[c], m) == 0), Implies(m >= 0, HS(F, v, F[c], m + 1) == HS(F, v, F[c], m) + HM(F[c], F[m]) * v[m])]
    register_lemma("diagonal-hessian", ["HS", "HDIAG"], z3.ForAll([al, F, k, v, c, m], Implies(HDIAG(al, F, k), p7(m)), patterns=[z3.MultiPattern(HDIAG(al, F, k), HS(F, v, F[c], m))]),
                   [([m <= 0] + hv(m), p7(m)), ([m >= 0, p7(m), hdiag(al, F, k, c, m)] + hv(m), p7(m + 1))])


lemmas()


def step_lemmas():
    """a step of length tau along the direction keeps the QP stationary: postconditions of determineStepDirection (here) and performStep (C06)"""
    F, G = z3.Consts("F!T G!T", IA)
    x, x1, dF, dG, y, y1, g, g1, dg, dy = z3.Consts("x!T x1!T dF!T dG!T y!T y1!T g!T g1!T dg!T dy!T", RA)
    row, m, nF, nG, k = z3.Ints("row!T m!T nF!T nG!T k!T")
    tau, al = z3.Reals("tau!T al!T")
    HV = z3.Function("HV", IA, RA, Int, Int, Real)      # sum_{k<m} H[row,F[k]]*x[F[k]]
    hv = lambda F, x, m: [Implies(m <= 0, HV(F, x, row, m) == 0), Implies(m >= 0, HV(F, x, row, m + 1) == HV(F, x, row, m) + HM(row, F[m]) * x[F[m]])]
    hs = lambda F, d, m: [Implies(m <= 0, HS(F, d, row, m) == 0), Implies(m >= 0, HS(F, d, row, m + 1) == HS(F, d, row, m) + HM(row, F[m]) * d[m])]
    moved = lambda F, d, k, n: Implies(rng(k, 0, n), x1[F[k]] == x[F[k]] + tau * d[k])
    lin = lambda F, d, m: HV(F, x1, row, m) == HV(F, x, row, m) + tau * HS(F, d, row, m)
    o = []
    o += [([m <= 0] + hv(F, x, m) + hv(F, x1, m) + hs(F, dF, m), lin(F, dF, m)), ([m >= 0, m < nF, moved(F, dF, m, nF), lin(F, dF, m)] + hv(F, x, m) + hv(F, x1, m) + hs(F, dF, m), lin(F, dF, m + 1))]
    stat = lambda g, x, y: g[row] + HV(F, x, row, nF) + HV(G, x, row, nG) - y[row] == 0
    both = [lin(F, dF, nF), lin(G, dG, nG), stat(g, x, y), g1[row] == g[row] + tau * dg[row]]
    # free variable: multiplier unchanged; fixed variable: multiplier moves along
    o += [(both + [y1[row] == y[row], HS(F, dF, row, nF) + HS(G, dG, row, nG) + dg[row] == 0], stat(g1, x1, y1)),
          (both + [y1[row] == y[row] + tau * dy[k], dy[k] == dg[row] + HS(F, dF, row, nF) + HS(G, dG, row, nG)], stat(g1, x1, y1))]
    # Hessian al*I
    d1 = lambda g, x, y: g[row] + al * x[row] - y[row] == 0
    di = [d1(g, x, y), g1[row] == g[row] + tau * dg[row]]
    o += [(di + [row == F[k], rng(k, 0, nF), moved(F, dF, k, nF), HS(F, dF, F[k], nF) == al * dF[k], HS(F, dF, F[k], nF) + dg[row] == 0, y1[row] == y[row]], d1(g1, x1, y1)),
          (di + [row == G[k], rng(k, 0, nG), moved(G, dG, k, nG), y1[row] == y[row] + tau * dy[k], dy[k] == dg[row] + al * dG[k]], d1(g1, x1, y1))]
    # full step: the data are the new data, so the point is stationary for the QP asked for
    gn = z3.Const("gn!T", RA)
    o += [([tau == 1, dg[row] == gn[row] - g[row], g1[row] == g[row] + tau * dg[row], stat(g1, x1, y1)], stat(gn, x1, y1))]
    register_lemma("step-keeps-stationarity", ["!never"], z3.BoolVal(True), o)


step_lemmas()


def direction(R):
    q = "QProblemB::determineStepDirection"
    B = lambda c: me(c).bounds
    FR, FX = lambda c: B(c).freee, lambda c: B(c).fixed
    dg, dlb, dub, zero = (lambda c: c.old.argi(0)), (lambda c: c.old.argi(1)), (lambda c: c.old.argi(2)), (lambda c: c.old.argi(3))
    xF, xR, yF = (lambda c: c.new.argi(4)), (lambda c: c.new.argi(5)), (lambda c: c.new.argi(6))
    TMP = lambda c: c.new.this.delta_xFR_TMP
    kind = lambda c: me(c).hessianType
    gen = lambda c: And(kind(c) != c.E["HST_ZERO"], kind(c) != c.E["HST_IDENTITY"])
    NR, NX = lambda c: FR(c).length, lambda c: FX(c).length
    hR = lambda c, row, m=None: HS(FR(c).number.arr, xR(c).arr, row, NR(c) if m is None else m)
    hX = lambda c, row, m=None: HS(FX(c).number.arr, xF(c).arr, row, NX(c) if m is None else m)

    def req(c):
        m = me(c)
        out = [("n", nV(c) >= 0), ("status", Implies(nV(c) > 0, And(Not(B(c).status.null), B(c).status.size >= nV(c))))] + [("free-" + a, b) for a, b in lists(FR(c), nV(c))] + [("fixed-" + a, b) for a, b in lists(FX(c), nV(c))]
        out += [("sum", NR(c) + NX(c) == nV(c)), ("R", sq(m.R, nV(c))), ("tmp", vec(m.delta_xFR_TMP, nV(c)))] + [("d%d" % j, arrs(c.old.argi(j), nV(c))) for j in (0, 1, 2)]
        out += [("xF", vec(c.old.argi(4), NX(c))), ("xR", vec(c.old.argi(5), NR(c))), ("yF", vec(c.old.argi(6), NX(c)))]
        out += [("options", And(m.options.numRefinementSteps >= 0, m.options.epsIterRef > 0)), ("H", Implies(gen(c), Not(m.H.null))), ("factor", GRAM(m.R.arr, FR(c).number.arr, nV(c), NR(c)))]
        reg = m.regVal
        out += [("identity", Implies(kind(c) == c.E["HST_IDENTITY"], HDIAG(one, FR(c).number.arr, NR(c)))), ("zero", Implies(kind(c) == c.E["HST_ZERO"], HDIAG(If(reg > ZERO, reg, z0), FR(c).number.arr, NR(c))))]
        return out
    wantX = lambda c, k: If(zero(c) != 0, z0, If(B(c).status[FX(c).number[k]] == c.E["ST_LOWER"], dlb(c)[FX(c).number[k]], dub(c)[FX(c).number[k]]))
    bx = lambda c, hi: ("dx-fixed", allin(0, hi, lambda k: xF(c)[k] == wantX(c, k), pats=lambda k: [xF(c)[k]]))
    # the product with a zero vector of shifts
    zx = lambda c, hi: ("zero-shift", forall(lambda r: Implies(zero(c) != 0, hX(c, r, hi) == 0), pats=lambda r: [hX(c, r, hi)]))
    cross = lambda c, k: If(gen(c), hX(c, FR(c).number[k]), z0)
    solves = lambda c, nm="stationary-free": (nm, allin(0, NR(c), lambda k: hR(c, FR(c).number[k]) + cross(c, k) + dg(c)[FR(c).number[k]] == 0, pats=lambda k: [FR(c).number[k]]))

    def wantY(c, k):
        row = FX(c).number[k]
        reg = me(c).regVal
        return dg(c)[row] + If(kind(c) == c.E["HST_ZERO"], If(reg > ZERO, rmul(reg, xF(c)[k]), z0), If(kind(c) == c.E["HST_IDENTITY"], xF(c)[k], hR(c, row) + hX(c, row)))

    def post(c):
        ok = c.ret == 0
        return [("dx-fixed", Implies(ok, bx(c, NX(c))[1])), ("stationary-free", Implies(ok, solves(c)[1])),
                ("stationary-fixed", Implies(ok, allin(0, NX(c), lambda k: yF(c)[k] == wantY(c, k), pats=lambda k: [yF(c)[k]]))),
                ("code", Or(ok, c.ret == c.E["RET_STEPDIRECTION_FAILED_CHOLESKY"]))]
    R.add(q, requires=req, ensures=post, modifies=lambda c: marr(c.old.argi(4)) + marr(c.old.argi(5)) + marr(c.old.argi(6)) + marr(me(c).delta_xFR_TMP), auto=False, only_variant=True)
    R.loop(q, "0", lambda c: [("r", rng(c.iv, 0, NX(c) + 1)), bx(c, c.iv)])
    R.loop(q, "1", lambda c: [("r", rng(c.iv, 0, NX(c) + 1)), bx(c, c.iv), zx(c, c.iv)])
    start = lambda c, hi: ("start", allin(0, hi, lambda k: And(TMP(c)[k] == -dg(c)[FR(c).number[k]], xR(c)[k] == 0), pats=lambda k: [TMP(c)[k], xR(c)[k]]))
    hz = lambda c, hi: ("zero-start", forall(lambda r: hR(c, r, hi) == 0, pats=lambda r: [hR(c, r, hi)]))
    R.loop(q, "2", lambda c: [("r", rng(c.iv, 0, NR(c) + 1)), start(c, c.iv), hz(c, c.iv), bx(c, NX(c)), zx(c, NX(c))])
    refine = lambda c: me(c).options.numRefinementSteps

    def outer(c):
        return [("r", Or(c.iv == 0, And(c.iv == 1, refine(c) == 0))), bx(c, NX(c)), zx(c, NX(c)), ("start", Implies(c.iv == 0, start(c, NR(c))[1])), ("zero-start", Implies(c.iv == 0, hz(c, NR(c))[1])), ("solved", Implies(c.iv > 0, solves(c)[1]))]
    R.loop(q, "3", outer)
    eX = lambda c: c.ent.argi(5)
    T0 = lambda c: c.ent.this.delta_xFR_TMP
    r0 = lambda c: ("pass", c.v("r") == 0)
    hE = lambda c, r: HS(FR(c).number.arr, eX(c).arr, r, NR(c))
    R.loop(q, "3.0", lambda c: [("r", rng(c.iv, 0, NR(c) + 1)), ("sum", allin(0, NR(c), lambda k: xR(c)[k] == eX(c)[k] + If(k < c.iv, TMP(c)[k], z0), pats=lambda k: [xR(c)[k]])),
                                ("product", forall(lambda r: hR(c, r) == hE(c, r) + HS(FR(c).number.arr, TMP(c).arr, r, c.iv), pats=lambda r: [hR(c, r)]))])
    R.loop(q, "3.1", lambda c: [("r", rng(c.iv, 0, NR(c) + 1)), ("start", allin(0, c.iv, lambda k: TMP(c)[k] == -dg(c)[FR(c).number[k]], pats=lambda k: [TMP(c)[k]])), solves(c)])
    R.loop(q, "3.2", lambda c: [("r", rng(c.iv, 0, NR(c) + 1)), ("todo", allin(c.iv, NR(c), lambda k: TMP(c)[k] == -dg(c)[FR(c).number[k]], pats=lambda k: [TMP(c)[k]])), ("norm", c.v("rnrm") == 0), solves(c)])
    R.loop(q, "3.3", lambda c: [("r", rng(c.iv, 0, NR(c) + 1)), ("zero", allin(0, NR(c), lambda k: TMP(c)[k] == 0, pats=lambda k: [TMP(c)[k]])), ("norm", c.v("rnrm") == 0), solves(c)])
    for l in ("4", "5"):
        R.loop(q, l, lambda c, l=l: [("r", rng(c.iv, 0, NX(c) + 1)), bx(c, NX(c)), solves(c), zx(c, NX(c)),
                                ("y", allin(0, c.iv, lambda k: yF(c)[k] == (wantY(c, k) if l == "4" else dg(c)[FX(c).number[k]]), pats=lambda k: [yF(c)[k]]))])
    return R


def solver(R):
    """backsolveR as used here; proved by C05 (same formulas, there with the definitions of LSOL and USOL written out)"""
    nR = lambda c: me(c).bounds.freee.length

    def post(c):
        k, n, a, b = nR(c), nV(c), c.new.argi(3), c.old.argi(0)
        ok = c.ret == 0
        a0 = c.old.argi(3)
        return [("transposed", Implies(And(ok, c.old.argi(1) == 1), LSOL(me(c).R.arr, n, k, a.arr, b.arr))), ("plain", Implies(And(ok, c.old.argi(1) == 0), USOL(me(c).R.arr, n, k, a.arr, b.arr)))]
    R.add("QProblemB::backsolveR", sig="(const real_t *const, BooleanType, BooleanType, real_t *const) const", trusted="proved by C05", requires=lambda c: [("keep", c.old.argi(2) == 0), ("n", nR(c) <= nV(c)), ("R", sq(me(c).R, nV(c))), ("a", vec(c.old.argi(3), nR(c))), ("b", vec(c.old.argi(0), nR(c)))],
          ensures=post, modifies=lambda c: marr(c.old.argi(3)))

    def tpost(c):
        Rw, Cl, al, x, y0, y1 = c.old.argi(0).obj, c.old.argi(1).obj, c.old.argi(3), c.old.argi(4), c.old.argi(7), c.new.argi(7)
        return [("ret", c.ret == 0), ("rows", allin(0, Rw.length, lambda k: y1[k] == y0[k] + al * HS(Cl.number.arr, x.arr, Rw.number[k], Cl.length), pats=lambda k: [y1[k]])), ("rest", forall(lambda k: Implies(Not(rng(k, 0, Rw.length)), y1[k] == y0[k]), pats=lambda k: [y1[k]]))]
    R.add("Matrix::times", sig="(const Indexlist *const, const Indexlist *const,", requires=lambda c: [("lists", And(Not(c.old.argi(0).null), Not(c.old.argi(1).null))), ("one", And(c.old.argi(2) == 1, c.old.argi(6) == 1, Or(c.old.argi(3) == 1, c.old.argi(3) == -1), c.old.argi(9) != 0)),
                                                                                                    ("x", vec(c.old.argi(4), c.old.argi(1).obj.length)), ("y", vec(c.old.argi(7), c.old.argi(0).obj.length))],
          ensures=tpost, modifies=lambda c: marr(c.old.argi(7)), trusted="abstract matrix interface; the implementations are proved to do this by C03 and C04")


def setup(R):
    for l in ("listed-row-update", "factor-solves-hessian", "diagonal-hessian", "step-keeps-stationarity"):
        R.lemma(l)
    solver(R)
    direction(R)
    return R
