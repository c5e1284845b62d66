"""C06: ratio test and step along the homotopy path."""
from qpv.dsl import *

me = lambda c: c.old.this


def elig_lo(c, S, i):
    """entries whose ratio num/den counts"""
    return And(S.type[i] != c.E["ST_EQUALITY"], Or(S.status[i] == c.E["ST_LOWER"], S.status[i] == c.E["ST_INACTIVE"]))


def elig_up(c, S, i):
    return And(S.type[i] != c.E["ST_EQUALITY"], S.status[i] == c.E["ST_UPPER"])


def arrs(p, n):
    return Implies(n > 0, And(Not(p.null), p.size >= n))


def subj(S):
    return [("subj", And(S.n >= 0, Implies(S.n > 0, And(Not(S.type.null), Not(S.status.null), S.type.size >= S.n, S.status.size >= S.n))))]


def lst(nm, L, n):
    return [(nm, And(L.length >= 0, L.length <= n, Implies(L.length > 0, And(Not(L.number.null), L.number.size >= L.length)))),
            (nm + "-range", allin(0, L.length, lambda k: rng(L.number[k], 0, n), pats=lambda k: [L.number[k]]))]


def ratio(R):
    q = "QProblemB::performRatioTest"

    def bound(c, t, hi):
        N, S, num, den = c.old.argi(1), c.old.argi(2).obj, c.old.argi(3), c.old.argi(4)
        eN, eD = c.old.argi(5), c.old.argi(6)
        return [("limits", allin(0, hi, lambda k: And(Implies(And(elig_lo(c, S, N[k]), den[k] >= eD, num[k] >= eN), num[k] >= MULR(t, den[k])),
                                                      Implies(And(elig_up(c, S, N[k]), -den[k] >= eD, -num[k] >= eN), -num[k] >= MULR(t, -den[k]))), pats=lambda k: [num[k], N[k]]))]

    def who(c, t, b, hi):
        N, S, num, den = c.old.argi(1), c.old.argi(2).obj, c.old.argi(3), c.old.argi(4)
        eN, eD = c.old.argi(5), c.old.argi(6)
        t0 = c.old.argi(7)
        k = var()
        att = lambda k: And(b == N[k], t * den[k] == num[k], Or(And(elig_lo(c, S, b), den[k] >= eD, num[k] >= eN), And(elig_up(c, S, b), -den[k] >= eD, -num[k] >= eN)))
        return [("not-longer", t <= t0), ("none", Implies(b == -1, t == t0)), ("some", Implies(b != -1, And(t < t0, b >= 0, z3.Exists([k], And(rng(k, 0, hi), att(k))))))]
    R.add(q, requires=lambda c: [("n", And(c.old.argi(0) >= 0, c.old.argi(6) > 0, Not(c.old.argi(2).null))), ("N", arrs(c.old.argi(1), c.old.argi(0))), ("num", arrs(c.old.argi(3), c.old.argi(0))), ("den", arrs(c.old.argi(4), c.old.argi(0)))] + subj(c.old.argi(2).obj) +
          [("range", allin(0, c.old.argi(0), lambda k: rng(c.old.argi(1)[k], 0, c.old.argi(2).obj.n), pats=lambda k: [c.old.argi(1)[k]]))],
          ensures=lambda c: [("ret", c.ret == 0)] + who(c, c.new.argi(7), c.new.argi(8), c.old.argi(0)) + bound(c, c.new.argi(7), c.old.argi(0)),
          modifies=lambda c: [mref(c.old, "t"), mref(c.old, "BC_idx")], auto=False)
    R.loop(q, "0", lambda c: [("r", rng(c.iv, 0, c.old.argi(0) + 1))] + who(c, c.new.argi(7), c.new.argi(8), c.iv) + bound(c, c.new.argi(7), c.iv))


def plain(R):
    q = "QProblem::performPlainRatioTest"
    A = lambda c, i: c.old.argi(i)      # 0 n 1 list 2 num 3 den 4 epsNum 5 epsDen 6 t 7 idx

    def body(c, hi):
        N, num, den, eN, eD, t0 = A(c, 1), A(c, 2), A(c, 3), A(c, 4), A(c, 5), A(c, 6)
        t, b, b0 = c.new.argi(6), c.new.argi(7), A(c, 7)
        k = var()
        return [("not-longer", t <= t0), ("none", Or(And(t == t0, b == b0), And(t < t0, z3.Exists([k], And(rng(k, 0, hi), b == N[k], num[k] > eN, den[k] > eD, t * den[k] == num[k]))))),
                ("limits", allin(0, hi, lambda k: Implies(And(num[k] > eN, den[k] > eD), num[k] >= MULR(t, den[k])), pats=lambda k: [num[k]]))]
    R.add(q, requires=lambda c: [("n", A(c, 5) >= 0)] + [(nm, Implies(A(c, 0) > 0, And(Not(A(c, i).null), A(c, i).size >= A(c, 0)))) for nm, i in (("N", 1), ("num", 2), ("den", 3))],
          ensures=lambda c: [("ret", c.ret == 0)] + body(c, mx0i(A(c, 0))), modifies=lambda c: [mref(c.old, "t"), mref(c.old, "BC_idx")], auto=False)
    R.loop(q, "0", lambda c: [("r", And(0 <= c.iv, c.iv <= mx0i(A(c, 0))))] + body(c, c.iv))


def mx0i(n):
    return If(n > 0, n, z3.IntVal(0))


def stepB(R):
    q = "QProblemB::performStep"
    B = lambda c: me(c).bounds
    FR, FX = lambda c: B(c).freee, lambda c: B(c).fixed
    nV = lambda c: B(c).n
    a = lambda c, i: c.old.argi(i)          # 0 dg 1 dlb 2 dub 3 dxFX 4 dxFR 5 dyFX 6 BC_idx 7 BC_status
    mx0 = lambda r: If(r >= 0, r, z3.RealVal(0))

    def tests(c):
        """(name, active, list, num, den): every ratio that limits the step"""
        m = me(c)
        fr, fx = FR(c).number, FX(c).number
        t, f = z3.BoolVal(True), c.E
        return [("dual-bounds", t, FX(c), lambda k: m.y[fx[k]], lambda k: -a(c, 5)[k], f["ST_INACTIVE"]),
                ("lower-bounds", B(c).noLower == 0, FR(c), lambda k: mx0(m.x[fr[k]] - m.lb[fr[k]]), lambda k: a(c, 1)[fr[k]] - a(c, 4)[k], f["ST_LOWER"]),
                ("upper-bounds", B(c).noUpper == 0, FR(c), lambda k: mx0(m.ub[fr[k]] - m.x[fr[k]]), lambda k: a(c, 4)[k] - a(c, 2)[fr[k]], f["ST_UPPER"])]

    def limits(c, tau, upto=None):
        out = []
        eN, eD = me(c).options.epsNum, me(c).options.epsDen
        for nm, act, L, num, den, st in tests(c)[:upto]:
            out.append((nm, Implies(act, allin(0, L.length, lambda k: And(Implies(And(elig_lo(c, B(c), L.number[k]), den(k) >= eD, num(k) >= eN), num(k) >= MULR(tau, den(k))),
                                                                         Implies(And(elig_up(c, B(c), L.number[k]), -den(k) >= eD, -num(k) >= eN), -num(k) >= MULR(tau, -den(k)))), pats=lambda k: [L.number[k]]))))
        return out

    def who(c):
        b, s, tau = c.new.argi(6), c.new.argi(7), c.new.this.tau
        out = [("tau", tau <= 1), ("no-change", (b == -1) == (s == c.E["ST_UNDEFINED"])), ("full", Implies(b == -1, tau == 1)), ("shorter", Implies(b != -1, tau < 1)),
               ("kind", Or(s == c.E["ST_UNDEFINED"], *[s == st for _, _, _, _, _, st in tests(c)]))]
        for nm, act, L, num, den, st in tests(c):
            k = var()
            out.append(("blocking-" + nm, Implies(s == st, And(act, z3.Exists([k], And(rng(k, 0, L.length), L.number[k] == b, tau * den(k) == num(k)))))))
        return out

    def moved(c):
        o, n, tau = me(c), c.new.this, c.new.this.tau
        fr, fx = FR(c), FX(c)
        go = tau > ZERO
        out = []
        for nm, i in (("g", 0), ("lb", 1), ("ub", 2)):
            out.append(("shift-" + nm, allin(0, nV(c), lambda k: getattr(n, nm)[k] == If(go, getattr(o, nm)[k] + tau * a(c, i)[k], getattr(o, nm)[k]), pats=lambda k: [getattr(n, nm)[k]])))
        out.append(("x-free", allin(0, fr.length, lambda k: n.x[fr.number[k]] == If(go, o.x[fr.number[k]] + tau * a(c, 4)[k], o.x[fr.number[k]]), pats=lambda k: [fr.number[k]])))
        out.append(("x-fixed", allin(0, fx.length, lambda k: n.x[fx.number[k]] == If(go, o.x[fx.number[k]] + tau * a(c, 3)[k], o.x[fx.number[k]]), pats=lambda k: [fx.number[k]])))
        out.append(("y-fixed", allin(0, fx.length, lambda k: n.y[fx.number[k]] == If(go, o.y[fx.number[k]] + tau * a(c, 5)[k], o.y[fx.number[k]]), pats=lambda k: [fx.number[k]])))
        out.append(("y-free", allin(0, fr.length, lambda k: n.y[fr.number[k]] == o.y[fr.number[k]], pats=lambda k: [fr.number[k]])))
        return out

    def disj(c):
        fr, fx = FR(c), FX(c)
        inj = lambda L: forall(lambda i, j: Implies(And(rng(i, 0, L.length), rng(j, 0, L.length), L.number[i] == L.number[j]), i == j), 2, pats=lambda i, j: [(L.number[i], L.number[j])])
        return [("free-distinct", inj(fr)), ("fixed-distinct", inj(fx)), ("disjoint", forall(lambda i, j: Implies(And(rng(i, 0, fr.length), rng(j, 0, fx.length)), fr.number[i] != fx.number[j]), 2, pats=lambda i, j: [(fr.number[i], fx.number[j])]))]

    def req(c):
        n, m = nV(c), me(c)
        out = [("n", n >= 0), ("eps", m.options.epsDen > 0), ("msg", c.E["ST_UNDEFINED"] >= 0 if False else z3.BoolVal(True))] + subj(B(c)) + lst("free", FR(c), n) + lst("fixed", FX(c), n) + disj(c)
        out += [(nm, arrs(getattr(m, nm), n)) for nm in ("x", "y", "g", "lb", "ub")] + [("d%d" % i, arrs(a(c, i), n)) for i in (0, 1, 2)] + [("dxFX", arrs(a(c, 3), FX(c).length)), ("dxFR", arrs(a(c, 4), FR(c).length)), ("dyFX", arrs(a(c, 5), FX(c).length))]
        return out

    def mods(c):
        m = me(c)
        return [mfield(m, "tau"), mref(c.old, "BC_idx"), mref(c.old, "BC_status")] + marr(m.x) + marr(m.y) + marr(m.g) + marr(m.lb) + marr(m.ub)
    R.add(q, requires=req, ensures=lambda c: [("ret", c.ret == 0)] + who(c) + limits(c, c.new.this.tau) + moved(c), modifies=mods, only_variant=True, auto=False)

    def fill(idx):
        def f(c):
            nm, act, L, num, den, st = tests(c)[idx]
            return [("r", rng(c.iv, 0, L.length + 1)), ("num", allin(0, c.iv, lambda k: And(c.v("num")[k] == num(k), c.v("den")[k] == den(k)), pats=lambda k: [c.v("num")[k], c.v("den")[k], L.number[k]]))]
        return f
    for i in range(3):
        R.loop(q, str(i), fill(i))

    def upd(c, field, L, i, hi):
        o, n, tau = getattr(me(c), field), getattr(c.new.this, field), c.new.this.tau
        return allin(0, L.length, lambda k: n[L.number[k]] == If(k < hi, o[L.number[k]] + tau * a(c, i)[k], o[L.number[k]]), pats=lambda k: [L.number[k]])
    same = lambda c, field, L: allin(0, L.length, lambda k: getattr(c.new.this, field)[L.number[k]] == getattr(me(c), field)[L.number[k]], pats=lambda k: [L.number[k]])
    R.loop(q, "3", lambda c: [("r", rng(c.iv, 0, FR(c).length + 1)), ("x", upd(c, "x", FR(c), 4, c.iv)), ("xf", same(c, "x", FX(c)))])
    R.loop(q, "4", lambda c: [("r", rng(c.iv, 0, FX(c).length + 1)), ("x", upd(c, "x", FR(c), 4, FR(c).length)), ("xf", upd(c, "x", FX(c), 3, c.iv)), ("yf", upd(c, "y", FX(c), 5, c.iv)), ("y", same(c, "y", FR(c)))])
    R.loop(q, "5", lambda c: [("r", rng(c.iv, 0, nV(c) + 1))] + [(nm, allin(0, nV(c), lambda k: getattr(c.new.this, nm)[k] == If(k < c.iv, getattr(me(c), nm)[k] + c.new.this.tau * a(c, i)[k], getattr(me(c), nm)[k]), pats=lambda k: [getattr(c.new.this, nm)[k]])) for nm, i in (("g", 0), ("lb", 1), ("ub", 2))])


AX = z3.Function("AX", RA, Int, Real)        # product of row i of the abstract constraint matrix with the vector


MEMB = z3.Function("MEMB", IA, Int, Int, Int)   # a position of p in the list, if there is one


def products(R):
    """abstract interfaces: the implementations of Matrix::times are proved to do this by C03 and C04"""
    sig = "(const Indexlist *const, const Indexlist *const,"

    def post(c):
        L, x, y0, y1 = c.old.argi(0).obj, c.old.argi(4), c.old.argi(7), c.new.argi(7)
        return [("ret", c.ret == 0), ("rows", allin(0, L.length, lambda k: y1[L.number[k]] == AX(x.arr, L.number[k]), pats=lambda k: [L.number[k]])),
                ("rest", forall(lambda p: Or(y1[p] == y0[p], And(rng(MEMB(L.number.arr, L.length, p), 0, L.length), L.number[MEMB(L.number.arr, L.length, p)] == p)), pats=lambda p: [y0[p]]))]
    R.add("Matrix::times", sig=sig, requires=lambda c: [("rows", Not(c.old.argi(0).null)), ("cols", c.old.argi(1).null), ("one", And(c.old.argi(2) == 1, c.old.argi(3) == 1, c.old.argi(6) == 0, c.old.argi(9) == 0)),
                                                        ("y", allin(0, c.old.argi(0).obj.length, lambda k: rng(c.old.argi(0).obj.number[k], 0, c.old.argi(7).size), pats=lambda k: [c.old.argi(0).obj.number[k]])), ("x", Implies(c.old.argi(5) > 0, And(Not(c.old.argi(4).null), c.old.argi(4).off == 0, c.old.argi(4).size >= c.old.argi(5))))],
          ensures=post, modifies=lambda c: marr(c.old.argi(7)), trusted="abstract matrix interface; the implementations are proved to do this by C03 and C04")


def stepC(R):
    q = "QProblem::performStep"
    B, C = lambda c: me(c).bounds, lambda c: me(c).constraints
    FR, FX, IA, AC = lambda c: B(c).freee, lambda c: B(c).fixed, lambda c: C(c).inactive, lambda c: C(c).active
    nV, nC = lambda c: B(c).n, lambda c: C(c).n
    NAMES = dict(dg=0, dlbA=1, dubA=2, dlb=3, dub=4, dxFX=5, dxFR=6, dyAC=7, dyFX=8)
    a = lambda c, nm: c.old.argi(NAMES[nm])
    mx0 = lambda r: If(r >= 0, r, z3.RealVal(0))
    DX = lambda c: c.new._st.arr(("%ghost", "dx"), Real)

    def dax(c):
        """the direction array delta_Ax of the code"""
        return c.v("delta_Ax")

    def tests(c, d):
        m = me(c)
        fr, fx, ia, ac = FR(c).number, FX(c).number, IA(c).number, AC(c).number
        t, E = z3.BoolVal(True), c.E
        return [("dual-constraints", t, C(c), AC(c), lambda k: m.y[nV(c) + ac[k]], lambda k: -a(c, "dyAC")[k], "ST_INACTIVE", 0),
                ("dual-bounds", t, B(c), FX(c), lambda k: m.y[fx[k]], lambda k: -a(c, "dyFX")[k], "ST_INACTIVE", 1),
                ("lower-constraints", C(c).noLower == 0, C(c), IA(c), lambda k: mx0(m.Ax_l[ia[k]]), lambda k: a(c, "dlbA")[ia[k]] - d(ia[k]), "ST_LOWER", 0),
                ("upper-constraints", C(c).noUpper == 0, C(c), IA(c), lambda k: mx0(m.Ax_u[ia[k]]), lambda k: d(ia[k]) - a(c, "dubA")[ia[k]], "ST_UPPER", 0),
                ("lower-bounds", B(c).noLower == 0, B(c), FR(c), lambda k: mx0(m.x[fr[k]] - m.lb[fr[k]]), lambda k: a(c, "dlb")[fr[k]] - a(c, "dxFR")[k], "ST_LOWER", 1),
                ("upper-bounds", B(c).noUpper == 0, B(c), FR(c), lambda k: mx0(m.ub[fr[k]] - m.x[fr[k]]), lambda k: a(c, "dxFR")[k] - a(c, "dub")[fr[k]], "ST_UPPER", 1)]

    def dirok(c, X):
        """X holds the direction in terms of the variables"""
        fr, fx = FR(c), FX(c)
        return [("dx-free", allin(0, fr.length, lambda k: X[fr.number[k]] == a(c, "dxFR")[k], pats=lambda k: [fr.number[k]])), ("dx-fixed", allin(0, fx.length, lambda k: X[fx.number[k]] == a(c, "dxFX")[k], pats=lambda k: [fx.number[k]]))]

    def limits(c, tau, d):
        out = []
        eN, eD = me(c).options.epsNum, me(c).options.epsDen
        for nm, act, S, L, num, den, st, bd in tests(c, d):
            out.append((nm, Implies(act, allin(0, L.length, lambda k: And(Implies(And(elig_lo(c, S, L.number[k]), den(k) >= eD, num(k) >= eN), num(k) >= MULR(tau, den(k))),
                                                                         Implies(And(elig_up(c, S, L.number[k]), -den(k) >= eD, -num(k) >= eN), -num(k) >= MULR(tau, -den(k)))), pats=lambda k: [L.number[k]]))))
        return out

    def who(c, d):
        b, s, isb, tau = c.new.argi(9), c.new.argi(10), c.new.argi(11), c.new.this.tau
        E = c.E
        T = tests(c, d)
        out = [("tau", tau <= 1), ("no-change", (b == -1) == (s == E["ST_UNDEFINED"])), ("full", Implies(b == -1, tau == 1)), ("shorter", Implies(b != -1, tau < 1)),
               ("kind", Or(s == E["ST_UNDEFINED"], *[And(s == E[st], isb == bd) for _, _, _, _, _, _, st, bd in T]))]
        for nm, act, S, L, num, den, st, bd in T:
            k = var()
            out.append(("blocking-" + nm, Implies(And(s == E[st], isb == bd), And(act, z3.Exists([k], And(rng(k, 0, L.length), L.number[k] == b, tau * den(k) == num(k)))))))
        return out

    def chg(c, field, n, hi, dnm):
        """field[k] moved by tau*direction for k<hi, unchanged beyond"""
        new, old = getattr(c.new.this, field), getattr(me(c), field)
        return allin(0, n, lambda k: new[k] == If(k < hi, old[k] + c.new.this.tau * a(c, dnm)[k], old[k]), pats=lambda k: [new[k]])

    def mv(c, field, L, dnm, hi, off=0):
        new, old = getattr(c.new.this, field), getattr(me(c), field)
        return allin(0, L.length, lambda k: new[off + L.number[k]] == If(k < hi, old[off + L.number[k]] + c.new.this.tau * a(c, dnm)[k], old[off + L.number[k]]), pats=lambda k: [L.number[k]])

    def same(c, field, L, off=0):
        new, old = getattr(c.new.this, field), getattr(me(c), field)
        return allin(0, L.length, lambda k: new[off + L.number[k]] == old[off + L.number[k]], pats=lambda k: [L.number[k]])
    ub = lambda c, i: C(c).type[i] != c.E["ST_UNBOUNDED"]

    def prods(c, hi, d, hia=None):
        """products of the active constraints are recomputed, those of the inactive ones moved"""
        n, o, tau = c.new.this, me(c), c.new.this.tau
        ac, ia = AC(c), IA(c)
        hia = ac.length if hia is None else hia
        X = n.x.arr
        return [("Ax-active", allin(0, ac.length, lambda k: And(n.Ax[ac.number[k]] == AX(X, ac.number[k]), Implies(k < hia, And(n.Ax_l[ac.number[k]] == AX(X, ac.number[k]) - n.lbA[ac.number[k]], n.Ax_u[ac.number[k]] == n.ubA[ac.number[k]] - AX(X, ac.number[k])))), pats=lambda k: [ac.number[k]])),
                ("Ax-inactive", allin(0, ia.length, lambda k: If(And(k < hi, ub(c, ia.number[k])), And(n.Ax[ia.number[k]] == o.Ax[ia.number[k]] + tau * d(ia.number[k]), n.Ax_l[ia.number[k]] == o.Ax_l[ia.number[k]] + tau * (d(ia.number[k]) - a(c, "dlbA")[ia.number[k]]),
                                                                                                n.Ax_u[ia.number[k]] == o.Ax_u[ia.number[k]] + tau * (a(c, "dubA")[ia.number[k]] - d(ia.number[k]))),
                                                                   And(n.Ax[ia.number[k]] == o.Ax[ia.number[k]], n.Ax_l[ia.number[k]] == o.Ax_l[ia.number[k]], n.Ax_u[ia.number[k]] == o.Ax_u[ia.number[k]])), pats=lambda k: [ia.number[k]]))]
    FIELDS = (("g", nV, "dg"), ("lb", nV, "dlb"), ("ub", nV, "dub"), ("lbA", nC, "dlbA"), ("ubA", nC, "dubA"))

    def moved(c, d):
        go = c.new.this.tau > ZERO
        out = [("shift-" + f, If(go, chg(c, f, n(c), n(c), dn), chg(c, f, n(c), z3.IntVal(0), dn))) for f, n, dn in FIELDS]
        for f, L, dn, off in (("x", FR(c), "dxFR", 0), ("x", FX(c), "dxFX", 0), ("y", FX(c), "dyFX", 0), ("y", AC(c), "dyAC", nV(c))):
            out.append(("%s-%s" % (f, dn), If(go, mv(c, f, L, dn, L.length, off), same(c, f, L, off))))
        out += [("y-free", same(c, "y", FR(c))), ("y-inactive", same(c, "y", IA(c), nV(c)))]
        out += [(nm, Implies(go, g)) for nm, g in prods(c, IA(c).length, d)]
        out += [("keep-" + f, Implies(Not(go), And(same(c, f, IA(c)), same(c, f, AC(c))))) for f in ("Ax", "Ax_l", "Ax_u")]
        return out

    def disj(c):
        out = []
        inj = lambda L: forall(lambda i, j: Implies(And(rng(i, 0, L.length), rng(j, 0, L.length), L.number[i] == L.number[j]), i == j), 2, pats=lambda i, j: [(L.number[i], L.number[j])])
        for nm, F, X in (("bounds", FR(c), FX(c)), ("constraints", IA(c), AC(c))):
            out += [(nm + "-d1", inj(F)), (nm + "-d2", inj(X)), (nm + "-disjoint", forall(lambda i, j: Implies(And(rng(i, 0, F.length), rng(j, 0, X.length)), F.number[i] != X.number[j]), 2, pats=lambda i, j: [(F.number[i], X.number[j])]))]
        return out

    def req(c):
        n, m, k = nV(c), me(c), nC(c)
        out = [("n", And(n >= 1, k >= 0)), ("eps", m.options.epsDen > 0), ("product", m.constraintProduct.null), ("A", Not(m.A.null))] + subj(B(c)) + [("c" + x, y) for x, y in subj(C(c))]
        out += lst("free", FR(c), n) + lst("fixed", FX(c), n) + lst("inactive", IA(c), k) + lst("active", AC(c), k) + disj(c)
        out += [(nm, arrs(getattr(m, nm), n)) for nm in ("x", "g", "lb", "ub")] + [("y", arrs(m.y, n + k))] + [(nm, arrs(getattr(m, nm), k)) for nm in ("lbA", "ubA", "Ax", "Ax_l", "Ax_u")]
        out += [(nm, arrs(a(c, nm), n)) for nm in ("dg", "dlb", "dub")] + [(nm, arrs(a(c, nm), k)) for nm in ("dlbA", "dubA")]
        out += [("dxFX", arrs(a(c, "dxFX"), FX(c).length)), ("dxFR", arrs(a(c, "dxFR"), FR(c).length)), ("dyFX", arrs(a(c, "dyFX"), FX(c).length)), ("dyAC", arrs(a(c, "dyAC"), AC(c).length))]
        return out

    def mods(c):
        m = me(c)
        out = [mfield(m, "tau")] + [mref(c.old, x) for x in ("BC_idx", "BC_status", "BC_isBound")]
        for f in ("x", "y", "g", "lb", "ub", "lbA", "ubA", "Ax", "Ax_l", "Ax_u"):
            out += marr(getattr(m, f))
        return out

    def post(c):
        D = z3.Const("D!ghost", RA)
        X = c.v("delta_x").arr
        d = lambda i: AX(X, i)
        return [("ret", c.ret == 0)] + [("direction-" + nm, g) for nm, g in dirok(c, c.v("delta_x"))] + who(c, d) + limits(c, c.new.this.tau, d) + moved(c, d)
    R.add(q, requires=req, ensures=post, modifies=mods, only_variant=True, auto=False, prune=True)
    P_ = {}

    def L(i, fn):
        R.loop(q, str(i), lambda c: fn(c))
    L(0, lambda c: [("r", rng(c.iv, 0, FR(c).length + 1)), ("dx", allin(0, c.iv, lambda k: c.v("delta_x")[FR(c).number[k]] == a(c, "dxFR")[k], pats=lambda k: [FR(c).number[k]]))])
    L(1, lambda c: [("r", rng(c.iv, 0, FX(c).length + 1)), dirok(c, c.v("delta_x"))[0], ("dx", allin(0, c.iv, lambda k: c.v("delta_x")[FX(c).number[k]] == a(c, "dxFX")[k], pats=lambda k: [FX(c).number[k]]))])

    def fill(idx):
        def f(c):
            nm, act, S, Ls, num, den, st, bd = tests(c, lambda i: c.v("delta_Ax")[i])[idx]
            return [("r", rng(c.iv, 0, Ls.length + 1)), ("num", allin(0, c.iv, lambda k: And(c.v("num")[k] == num(k), c.v("den")[k] == den(k)), pats=lambda k: [c.v("num")[k], c.v("den")[k], Ls.number[k]]))]
        return f
    for i, idx in ((2, 0), (3, 1), (4, 2), (5, 3), (7, 4), (8, 5)):
        L(i, fill(idx))
    dd = lambda c: (lambda i: c.v("delta_Ax")[i])

    def slack(c, hi):
        d, ia = dd(c), IA(c)
        return [("slack", allin(0, hi, lambda k: Implies(ub(c, ia.number[k]), And(c.v("delta_Ax_l")[ia.number[k]] == d(ia.number[k]) - a(c, "dlbA")[ia.number[k]], c.v("delta_Ax_u")[ia.number[k]] == a(c, "dubA")[ia.number[k]] - d(ia.number[k]))), pats=lambda k: [ia.number[k]]))]
    L(6, lambda c: [("r", rng(c.iv, 0, IA(c).length + 1))] + slack(c, c.iv))
    L(9, lambda c: [("r", rng(c.iv, 0, FR(c).length + 1)), ("x", mv(c, "x", FR(c), "dxFR", c.iv)), ("xf", same(c, "x", FX(c)))])
    L(10, lambda c: [("r", rng(c.iv, 0, FX(c).length + 1)), ("x", mv(c, "x", FR(c), "dxFR", FR(c).length)), ("xf", mv(c, "x", FX(c), "dxFX", c.iv)), ("yf", mv(c, "y", FX(c), "dyFX", c.iv)), ("y", same(c, "y", FR(c))), ("yc", same(c, "y", AC(c), nV(c))), ("yi", same(c, "y", IA(c), nV(c)))])
    L(11, lambda c: [("r", rng(c.iv, 0, AC(c).length + 1)), ("yc", mv(c, "y", AC(c), "dyAC", c.iv, nV(c))), ("yf", mv(c, "y", FX(c), "dyFX", FX(c).length)), ("y", same(c, "y", FR(c))), ("yi", same(c, "y", IA(c), nV(c)))])
    L(12, lambda c: [("r", rng(c.iv, 0, nV(c) + 1))] + [(f, chg(c, f, nV(c), c.iv, dn)) for f, n, dn in FIELDS[:3]])
    L(13, lambda c: [("r", rng(c.iv, 0, nC(c) + 1))] + [(f, chg(c, f, nC(c), c.iv, dn)) for f, n, dn in FIELDS[3:]])
    L(14, lambda c: [("r", rng(c.iv, 0, AC(c).length + 1))] + prods(c, z3.IntVal(0), dd(c), c.iv))
    L(15, lambda c: [("r", rng(c.iv, 0, IA(c).length + 1))] + prods(c, c.iv, dd(c)))


def setup(R):
    R.lemma("product-monotone")
    plain(R)
    products(R)
    stepC(R)
    stepB(R)
    ratio(R)
    return R
