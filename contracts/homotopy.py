"""C07/C12: data of the homotopy: data shift, auxiliary QP, drift correction, ramping, far bounds."""
from qpv.dsl import *
from contracts.linalg import alias, vec

me = lambda c: c.old.this
nV = lambda c: me(c).bounds.n
nC = lambda c: me(c).constraints.n
z0 = z3.RealVal(0)
mx = lambda a, b: If(a > b, a, b)
mn = lambda a, b: If(a < b, a, b)
INF = z3.RealVal("1e20")
EPSR = z3.RealVal("2.221e-16")

RELD = z3.Function("RELD", Real, Real, Real)        # |new-old| / max(1,|new|)
rel = lambda n, o: absr(n - o) / If(absr(n) < 1, z3.RealVal(1), absr(n))
register_spec(RELD, lambda n, o, depth=0: [RELD(n, o) == rel(n, o)])
RAMP = z3.Function("RAMP", Int, Int, Real, Real, Real)   # value of an evenly spaced ramp of n values from a to b, taken cyclically
register_spec(RAMP, lambda j, n, a, b, depth=0: [Implies(n <= 1, RAMP(j, n, a, b) == a),
                                                 Implies(n > 1, RAMP(j, n, a, b) == (1 - z3.ToReal(j % n) / z3.ToReal(n - 1)) * a + z3.ToReal(j % n) / z3.ToReal(n - 1) * b)])
MX = z3.Function("MX", Int, RA, Int, Int, Real)     # entry k of (matrix id) times the vector starting at an offset of the array
MTX = z3.Function("MTX", Int, RA, Int, Int, Real)   # the same for the transposed matrix


def mid(o):
    return z3.Int("id<%s>" % ".".join(str(x) for x in o._path))


def matrices(R):
    for nm, f in (("times", MX), ("transTimes", MTX)):
        def post(c, f=f):
            al, x, be, y0, y1 = c.old.argi(1), c.old.argi(2), c.old.argi(4), c.old.argi(5), c.new.argi(5)
            n = c.old.argi(6)
            return [("ret", c.ret == 0), ("y", allin(0, n, lambda k: y1[k] == be * y0[k] + al * f(mid(me(c)), x.arr, x.off, k), pats=lambda k: [y1[k]])),
                    ("rest", forall(lambda k: Implies(Not(rng(k, 0, n)), y1[k] == y0[k]), pats=lambda k: [y1[k]]))]
        R.add("Matrix::" + nm, sig="(int_t, real_t, const real_t *, int_t, real_t, real_t *, int_t)",
              requires=lambda c: [("one", c.old.argi(0) == 1), ("y", arrs(c.old.argi(5), c.old.argi(6)))],
              ensures=post, modifies=lambda c: marr(c.old.argi(5)), trusted="abstract matrix interface; the implementations are proved to do this by C03 and C04")


def arrs(p, n):
    return Implies(n > 0, And(Not(p.null), p.size >= n))


def base(c, con, need):
    """sizes of the member arrays"""
    n, k = nV(c), (nC(c) if con else z3.IntVal(0))
    m = me(c)
    out = [("n", And(n >= 0, k >= 0))]
    for S in [m.bounds] + ([m.constraints] if con else []):
        out.append(("subj", Implies(S.n > 0, And(Not(S.type.null), Not(S.status.null), S.type.size >= S.n, S.status.size >= S.n))))
    sz = dict(x=n, g=n, lb=n, ub=n, y=n + k, lbA=k, ubA=k, Ax=k, Ax_l=k, Ax_u=k)
    return out + [(f, arrs(getattr(m, f), sz[f])) for f in need]


def arrmods(c, fields):
    m = me(c)
    return [x for f in fields for x in marr(getattr(m, f))]


def lists(L, n):
    return [("list", And(L.length >= 0, L.length <= n, Implies(L.length > 0, And(Not(L.number.null), L.number.size >= L.length)))),
            ("list-range", allin(0, L.length, lambda k: rng(L.number[k], 0, n), pats=lambda k: [L.number[k]]))]


def same(c, f, lo, hi):
    """members unchanged on a range"""
    n, o = getattr(c.new.this, f), getattr(me(c), f)
    return ("keep-" + f, allin(lo, hi, lambda k: n[k] == o[k], pats=lambda k: [n[k]]))


def shift(R):
    def sh(c, i, j, fld, dflt, hi):
        """delta argument j is argument i minus the stored data"""
        new, d, old = c.old.argi(i), c.new.argi(j), getattr(me(c), fld)
        v = lambda k: (If(new.null, dflt, new[k]) if dflt is not None else new[k]) - old[k]
        return allin(0, hi, lambda k: d[k] == v(k), pats=lambda k: [d[k]])

    def flag(c, f, L, dl, du, hi, neg=True):
        moved = lambda k: Or(absr(dl[L.number[k]]) > EPSR, absr(du[L.number[k]]) > EPSR)
        k = var()
        return [("flag-set", Or(f == 0, f == 1)), ("flag-zero", Implies(f == c.E["BT_TRUE"], allin(0, hi, lambda k: Not(moved(k)), pats=lambda k: [L.number[k]]))),
                ("flag-nonzero", Implies(f != c.E["BT_TRUE"], z3.Exists([k], And(rng(k, 0, hi), moved(k)))))]
    for con in (False, True):
        q = "QProblem::determineDataShift" if con else "QProblemB::determineDataShift"
        # arguments: base: g lb ub | dg dlb dub | flag ; with constraints: g lbA ubA lb ub | dg dlbA dubA dlb dub | flagC flagB
        if con:
            S = [(0, 5, "g", None, nV), (1, 6, "lbA", -INF, nC), (2, 7, "ubA", INF, nC), (3, 8, "lb", -INF, nV), (4, 9, "ub", INF, nV)]
        else:
            S = [(0, 3, "g", None, nV), (1, 4, "lb", -INF, nV), (2, 5, "ub", INF, nV)]

        def req(c, con=con, S=S):
            out = base(c, con, [s[2] for s in S]) + lists(me(c).bounds.fixed, nV(c)) + (lists(me(c).constraints.active, nC(c)) if con else [])
            for i, j, fld, d, n in S:
                out.append(("new-" + fld, Implies(n(c) > 0, And(T if d is None else T, c.old.argi(i).size >= n(c), Not(c.old.argi(i).null)) if d is None else Or(c.old.argi(i).null, c.old.argi(i).size >= n(c)))))
                out.append(("delta-" + fld, arrs(c.old.argi(j), n(c))))
            return out

        def post(c, con=con, S=S):
            out = [("ret", c.ret == 0)] + [("delta-" + s[2], sh(c, s[0], s[1], s[2], s[3], s[4](c))) for s in S]
            d = {s[2]: c.new.argi(s[1]) for s in S}
            B, C = me(c).bounds.fixed, me(c).constraints.active if con else None
            out += [("bounds-" + a, b) for a, b in flag(c, c.new.argi(11 if con else 6), B, d["lb"], d["ub"], B.length)]
            if con:
                out += [("constraints-" + a, b) for a, b in flag(c, c.new.argi(10), C, d["lbA"], d["ubA"], C.length)]
            return out

        def mods(c, con=con, S=S):
            return [x for s in S for x in marr(c.old.argi(s[1]))] + ([mref(c.old, "Delta_bC_isZero")] if con else []) + [mref(c.old, "Delta_bB_isZero")]
        R.add(q, requires=req, ensures=post, modifies=mods, auto=False)
        if not con:
            for l, s in enumerate((S[0], S[1], S[1], S[2], S[2])):
                R.loop(q, str(l), lambda c, s=s: [("r", rng(c.iv, 0, nV(c) + 1)), ("d", sh(c, s[0], s[1], s[2], s[3], c.iv))])

            def fl(c, S=S):
                return [("r", rng(c.iv, 0, me(c).bounds.fixed.length + 1)), ("f", c.new.argi(6) == c.E["BT_TRUE"])] + flag(c, c.new.argi(6), me(c).bounds.fixed, c.new.argi(4), c.new.argi(5), c.iv)[1:2]
            R.loop(q, "5", fl)
        else:
            for l, s in ((0, S[1]), (1, S[2])):
                R.loop(q, str(l), lambda c, s=s: [("r", rng(c.iv, 0, nC(c) + 1)), ("d", sh(c, s[0], s[1], s[2], s[3], c.iv))])
            R.loop(q, "2", lambda c: [("r", rng(c.iv, 0, me(c).constraints.active.length + 1)), ("f", c.new.argi(10) == c.E["BT_TRUE"])] + flag(c, c.new.argi(10), me(c).constraints.active, c.new.argi(6), c.new.argi(7), c.iv)[1:2])


def length(R):
    """the largest relative change of the data"""
    for con in (False, True):
        q = "QProblem::getRelativeHomotopyLength" if con else "QProblemB::getRelativeHomotopyLength"
        S = [(0, "g", nV, False), (1, "lb", nV, True), (2, "ub", nV, True)] + ([(3, "lbA", nC, True), (4, "ubA", nC, True)] if con else [])

        def upper(c, val, his):
            return [("bounds-" + f, Implies(Not(c.old.argi(i).null), allin(0, hi, lambda k: RELD(c.old.argi(i)[k], getattr(me(c), f)[k]) <= val, pats=lambda k: [c.old.argi(i)[k], getattr(me(c), f)[k]]))) for i, f, hi in his]

        def attained(c, val, his):
            out = [val == 0]
            for i, f, hi in his:
                k = var()
                out.append(z3.Exists([k], And(rng(k, 0, hi), Not(c.old.argi(i).null), val == rel(c.old.argi(i)[k], getattr(me(c), f)[k]))))
            return [("nonneg", val >= 0), ("attained", Or(*out))]

        def req(c, con=con, S=S):
            return base(c, con, [s[1] for s in S]) + [("new-" + f, Implies(n(c) > 0, Or(c.old.argi(i).null, c.old.argi(i).size >= n(c)) if opt else And(Not(c.old.argi(i).null), c.old.argi(i).size >= n(c)))) for i, f, n, opt in S]

        def post(c, S=S):
            h = [(i, f, n(c)) for i, f, n, o in S]
            return upper(c, c.ret, h) + attained(c, c.ret, h)
        R.add(q, pure=True, requires=req, ensures=post, auto=False)
        for l, idx in enumerate(range(3, 5) if con else range(3)):
            def inv(c, S=S, idx=idx):
                h = [(i, f, n(c)) for i, f, n, o in S[:idx]] + [(S[idx][0], S[idx][1], c.iv)]
                return [("r", rng(c.iv, 0, S[idx][2](c) + 1))] + upper(c, c.v("len"), h) + attained(c, c.v("len"), h)
            R.loop(q, str(l), inv)


def gradient(R):
    for con in (False, True):
        cls = "QProblem" if con else "QProblemB"
        q = cls + "::setupAuxiliaryQPgradient"

        def part(c, k):
            m = me(c)
            return m.y[k]

        def val(c, k, con=con):
            m = me(c)
            h, E = m.hessianType, c.E
            x, y = m.x, m.y
            Hx = If(h == E["HST_ZERO"], If(m.regVal > ZERO, m.regVal * x[k], z0), If(h == E["HST_IDENTITY"], x[k], MX(mid(m.H.obj), x.arr, x.off, k)))
            return y[k] - Hx + (MTX(mid(m.A.obj), y.arr, y.off + nV(c), k) if con else z0)

        def post(c, val=val):
            return [("ret", c.ret == 0), ("stationary", allin(0, nV(c), lambda k: c.new.this.g[k] == val(c, k), pats=lambda k: [c.new.this.g[k]]))]

        def req(c, con=con):
            m = me(c)
            return base(c, con, ["x", "g", "y"]) + [("H", Or(m.hessianType == c.E["HST_ZERO"], m.hessianType == c.E["HST_IDENTITY"], Not(m.H.null)))] + ([("A", Not(m.A.null))] if con else [])
        R.add(q, requires=req, ensures=post, modifies=lambda c: arrmods(c, ["g"]), auto=False)
        G = lambda c, f: [("r", rng(c.iv, 0, nV(c) + 1)), ("g", allin(0, c.iv, lambda k: c.new.this.g[k] == f(k), pats=lambda k: [c.new.this.g[k]]))]
        R.loop(q, "0", lambda c: G(c, lambda k: me(c).y[k]))
        R.loop(q, "1", lambda c: G(c, lambda k: me(c).y[k] - me(c).regVal * me(c).x[k]))
        R.loop(q, "2", lambda c: G(c, lambda k: me(c).y[k] - me(c).x[k]))
        R.loop(q, "3", lambda c: G(c, lambda k: me(c).y[k]))


def stat(c, con):
    """g is the gradient for which the new x, y are stationary"""
    m = c.new.this
    h, E = me(c).hessianType, c.E

    def val(k):
        Hx = If(h == E["HST_ZERO"], If(m.regVal > ZERO, m.regVal * m.x[k], z0), If(h == E["HST_IDENTITY"], m.x[k], MX(mid(me(c).H.obj), m.x.arr, m.x.off, k)))
        return m.y[k] - Hx + (MTX(mid(me(c).A.obj), m.y.arr, m.y.off + nV(c), k) if con else z0)
    return [("stationary", allin(0, nV(c), lambda k: m.g[k] == val(k), pats=lambda k: [m.g[k]]))]


def greq(c, con):
    m = me(c)
    return [("H", Or(m.hessianType == c.E["HST_ZERO"], m.hessianType == c.E["HST_IDENTITY"], Not(m.H.null)))] + ([("A", Not(m.A.null))] if con else [])


def sides(c, con):
    """(subject, lower, upper, point, multiplier offset, slacks?)"""
    out = [(me(c).bounds, "lb", "ub", lambda s, k: s.x[k], z3.IntVal(0), False)]
    if con:
        out.append((me(c).constraints, "lbA", "ubA", lambda s, k: s.Ax[k], nV(c), True))
    return out


def eachside(c, con, f, upto=None):
    """f(S, lower, upper, p, off, slack, k, new, old) -> list of (name, equation); quantified over all indices, below upto[i] only changed"""
    pass


def drift(R):
    def rows(c, con, part, hi):
        """what drift correction does to indices below hi of part 0 (bounds) or 1 (constraints); indices from hi on are unchanged"""
        S, lo, up, pt, off, slk = sides(c, con)[part]
        n, o, E = c.new.this, me(c), c.E
        L, U, L0, U0 = getattr(n, lo), getattr(n, up), getattr(o, lo), getattr(o, up)
        p = lambda k: pt(o, k)
        y, y0 = (lambda k: n.y[off + k]), (lambda k: o.y[off + k])
        bnd = lambda k, s: And(S.type[k] == E["ST_BOUNDED"], S.status[k] == E[s])
        eq = lambda k: S.type[k] == E["ST_EQUALITY"]
        wl = lambda k: If(Or(eq(k), bnd(k, "ST_LOWER")), p(k), If(Or(bnd(k, "ST_UPPER"), bnd(k, "ST_INACTIVE")), mn(L0[k], p(k)), L0[k]))
        wu = lambda k: If(Or(eq(k), bnd(k, "ST_UPPER")), p(k), If(Or(bnd(k, "ST_LOWER"), bnd(k, "ST_INACTIVE")), mx(U0[k], p(k)), U0[k]))
        wy = lambda k: If(bnd(k, "ST_LOWER"), mx(y0(k), z0), If(bnd(k, "ST_UPPER"), mn(y0(k), z0), If(bnd(k, "ST_INACTIVE"), z0, y0(k))))
        ch = lambda k: Or(eq(k), bnd(k, "ST_LOWER"), bnd(k, "ST_UPPER"), bnd(k, "ST_INACTIVE"))
        N = S.n
        pick = lambda k, a, b: If(k < hi, a, b)
        nm = ("bounds", "constraints")[part]
        out = [(nm + "-lower", allin(0, N, lambda k: L[k] == pick(k, wl(k), L0[k]), pats=lambda k: [L[k]])),
               (nm + "-upper", allin(0, N, lambda k: U[k] == pick(k, wu(k), U0[k]), pats=lambda k: [U[k]]))]
        out.append((nm + "-dual", forall(lambda q: Implies(rng(q, off, off + N), n.y[q] == If(q - off < hi, wy(q - off), o.y[q])), pats=lambda q: [n.y[q]])))
        if slk:
            out.append((nm + "-slack-lower", allin(0, N, lambda k: n.Ax_l[k] == pick(k, If(ch(k), p(k) - wl(k), o.Ax_l[k]), o.Ax_l[k]), pats=lambda k: [n.Ax_l[k]])))
            out.append((nm + "-slack-upper", allin(0, N, lambda k: n.Ax_u[k] == pick(k, If(ch(k), wu(k) - p(k), o.Ax_u[k]), o.Ax_u[k]), pats=lambda k: [n.Ax_u[k]])))
        return out
    for con in (False, True):
        q = ("QProblem" if con else "QProblemB") + "::performDriftCorrection"
        flds = ["x", "y", "g", "lb", "ub"] + (["lbA", "ubA", "Ax", "Ax_l", "Ax_u"] if con else [])
        R.add(q, only_variant=True, requires=lambda c, con=con, flds=flds: base(c, con, flds) + greq(c, con),
              ensures=lambda c, con=con: [("ret", c.ret == 0)] + rows(c, con, 0, nV(c)) + (rows(c, con, 1, nC(c)) if con else []) + stat(c, con),
              modifies=lambda c, con=con: arrmods(c, ["g", "lb", "ub", "y"] + (["lbA", "ubA", "Ax_l", "Ax_u"] if con else [])), auto=False)
        R.loop(q, "0", lambda c, con=con: [("r", rng(c.iv, 0, nV(c) + 1))] + rows(c, con, 0, c.iv) + (rows(c, con, 1, z3.IntVal(0))[2:3] if con else []))
        if con:
            R.loop(q, "1", lambda c, con=con: [("r", rng(c.iv, 0, nC(c) + 1))] + rows(c, con, 0, nV(c)) + rows(c, con, 1, c.iv))


def ramping(R):
    def rows(c, con, part, hi):
        S, lo, up, pt, off, slk = sides(c, con)[part]
        n, o, E = c.new.this, me(c), c.E
        L, U, L0, U0 = getattr(n, lo), getattr(n, up), getattr(o, lo), getattr(o, up)
        p = lambda k: pt(o, k)
        N, nv, r0, r1, ro = S.n, nV(c), o.ramp0, o.ramp1, o.rampOffset
        if con:
            k2 = nC(c)
            tot = nv + k2 + k2 + nv
            P = lambda k: RAMP((k if part == 0 else nv + k) + ro, tot, r0, r1)
            D = lambda k: RAMP((nv + k2 + k2 + k if part == 0 else nv + k2 + k) + ro, tot, r0, r1)
            sc = lambda k: If(absr(p(k)) > 1, absr(p(k)), z3.RealVal(1))
        else:
            P = D = lambda k: RAMP(k + ro, nv, r0, r1)
            sc = lambda k: z3.RealVal(1)
        eq = lambda k: S.type[k] == E["ST_EQUALITY"]
        act = (lambda k: S.type[k] == E["ST_BOUNDED"]) if con else (lambda k: Not(Or(eq(k), S.type[k] == E["ST_UNBOUNDED"], S.type[k] == E["ST_DISABLED"])))
        st = lambda k, s: S.status[k] == E[s]
        wl = lambda k: If(eq(k), p(k), If(act(k), If(st(k, "ST_LOWER"), p(k), p(k) - sc(k) * P(k)), L0[k]))
        wu = lambda k: If(eq(k), p(k), If(act(k), If(st(k, "ST_UPPER"), p(k), p(k) + sc(k) * P(k)), U0[k]))
        wy = lambda k: If(act(k), If(st(k, "ST_LOWER"), D(k), If(st(k, "ST_UPPER"), -D(k), If(st(k, "ST_INACTIVE"), z0, o.y[off + k]))), o.y[off + k])
        pick = lambda k, a, b: If(k < hi, a, b)
        nm = ("bounds", "constraints")[part]
        out = [(nm + "-lower", allin(0, N, lambda k: L[k] == pick(k, wl(k), L0[k]), pats=lambda k: [L[k]])),
               (nm + "-upper", allin(0, N, lambda k: U[k] == pick(k, wu(k), U0[k]), pats=lambda k: [U[k]])),
               (nm + "-dual", forall(lambda q: Implies(rng(q, off, off + N), n.y[q] == If(q - off < hi, wy(q - off), o.y[q])), pats=lambda q: [n.y[q]]))]
        if slk:
            out.append((nm + "-slack-lower", allin(0, N, lambda k: n.Ax_l[k] == pick(k, If(act(k), p(k) - wl(k), o.Ax_l[k]), o.Ax_l[k]), pats=lambda k: [n.Ax_l[k]])))
            out.append((nm + "-slack-upper", allin(0, N, lambda k: n.Ax_u[k] == pick(k, If(act(k), wu(k) - p(k), o.Ax_u[k]), o.Ax_u[k]), pats=lambda k: [n.Ax_u[k]])))
        return out
    for con in (False, True):
        q = ("QProblem" if con else "QProblemB") + "::performRamping"
        flds = ["x", "y", "g", "lb", "ub"] + (["lbA", "ubA", "Ax", "Ax_l", "Ax_u"] if con else [])
        R.add(q, only_variant=True, requires=lambda c, con=con, flds=flds: base(c, con, flds) + greq(c, con) + [("offset", me(c).rampOffset >= 0)],
              ensures=lambda c, con=con: [("ret", c.ret == 0), ("offset", c.new.this.rampOffset == me(c).rampOffset + 1)] + rows(c, con, 0, nV(c)) + (rows(c, con, 1, nC(c)) if con else []) + stat(c, con),
              modifies=lambda c, con=con: [mfield(me(c), "rampOffset")] + arrmods(c, ["g", "lb", "ub", "y"] + (["lbA", "ubA", "Ax_l", "Ax_u"] if con else [])), auto=False)
        R.loop(q, "0", lambda c, con=con: [("r", rng(c.iv, 0, nV(c) + 1))] + rows(c, con, 0, c.iv) + (rows(c, con, 1, z3.IntVal(0))[2:3] if con else []))
        if con:
            R.loop(q, "1", lambda c, con=con: [("r", rng(c.iv, 0, nC(c) + 1))] + rows(c, con, 0, nV(c)) + rows(c, con, 1, c.iv))


def far(R):
    def rows(c, i, off, lower, hi):
        """argument i: user data (possibly absent), i+1: data with far bounds"""
        m, F_, n = me(c), c.old.argi(0), c.old.argi(1)
        u, w = c.old.argi(i), c.new.argi(i + 1)
        r = lambda k: If(m.options.enableRamping == c.E["BT_TRUE"], F_ * (1 + RAMP(off + k + m.rampOffset, n, m.ramp0, m.ramp1)), F_)
        v = (lambda k: If(u.null, -r(k), mx(-r(k), u[k]))) if lower else (lambda k: If(u.null, r(k), mn(r(k), u[k])))
        return allin(0, hi, lambda k: w[k] == v(k), pats=lambda k: [w[k]])
    for con in (False, True):
        q = ("QProblem" if con else "QProblemB") + "::updateFarBounds"
        S = [(2, z3.IntVal(0), True, nV), (4, z3.IntVal(0), False, nV)] + ([(6, "nV", True, nC), (8, "nV", False, nC)] if con else [])
        off = lambda c, o: nV(c) if isinstance(o, str) else o

        def req(c, con=con, S=S):
            out = base(c, con, []) + [("offset", me(c).rampOffset >= 0), ("ramp", c.old.argi(1) >= 1 if not con else c.old.argi(1) >= nV(c) + nC(c)), ("nv", nV(c) >= 1)]
            for i, o, l, n in S:
                out += [("u%d" % i, Implies(n(c) > 0, Or(c.old.argi(i).null, c.old.argi(i).size >= n(c)))), ("w%d" % i, arrs(c.old.argi(i + 1), n(c)))]
            return out
        R.add(q, requires=req, ensures=lambda c, S=S: [("ret", c.ret == 0)] + [("far-%s%s" % ("lower" if l else "upper", "" if i < 6 else "-constraints"), rows(c, i, off(c, o), l, n(c))) for i, o, l, n in S],
              modifies=lambda c, S=S: [x for s in S for x in marr(c.old.argi(s[0] + 1))], auto=False)
        T_ = S[2:] if con else S
        for l in ("0", "1"):
            R.loop(q, l, lambda c, T_=T_: [("r", rng(c.iv, 0, T_[0][3](c) + 1))] + [("far%d" % i, rows(c, i, off(c, o), lw, c.iv)) for i, o, lw, n in T_])


def selfarg(*pairs):
    """parameter i points to the same array as the member"""
    def f(ex, argd):
        ks = list(argd)
        for i, fld in pairs:
            k, v, ty = argd[ks[i]]
            argd[ks[i]] = (k, ex.env.init(("this", fld), ty), ty)
    return f


def auxsolution(R):
    for con in (False, True):
        q = ("QProblem" if con else "QProblemB") + "::setupAuxiliaryQPsolution"
        tot = lambda c, con=con: nV(c) + (nC(c) if con else 0)

        def vecs(c, fld, i, hi):
            a, n = c.old.argi(i), getattr(c.new.this, fld)
            return allin(0, hi, lambda k: n[k] == If(a.null, z0, a[k]), pats=lambda k: [n[k]])

        def post(c, con=con, tot=tot):
            n = c.new.this
            out = [("ret", c.ret == 0), ("x", vecs(c, "x", 0, nV(c))), ("y", vecs(c, "y", 1, tot(c)))]
            if con:
                ax = lambda k: If(c.old.argi(0).null, z0, MX(mid(me(c).A.obj), n.x.arr, n.x.off, k))
                out += [("product-" + f, allin(0, nC(c), lambda k: getattr(n, f)[k] == ax(k), pats=lambda k: [getattr(n, f)[k]])) for f in ("Ax", "Ax_l", "Ax_u")]
            return out

        def req(c, con=con, tot=tot):
            return base(c, con, ["x", "y"] + (["Ax", "Ax_l", "Ax_u"] if con else [])) + ([("A", Not(me(c).A.null))] if con else []) + \
                [("xOpt", Implies(nV(c) > 0, Or(c.old.argi(0).null, c.old.argi(0).size >= nV(c)))), ("yOpt", Implies(tot(c) > 0, Or(c.old.argi(1).null, c.old.argi(1).size >= tot(c))))]
        for v, st in (("", None), ("self", selfarg((0, "x"), (1, "y")))):
            R.add(q, variant=v or None, only_variant=True, setup=st, requires=req, ensures=post, modifies=lambda c, con=con: arrmods(c, ["x", "y"] + (["Ax", "Ax_l", "Ax_u"] if con else [])), auto=False)
        X = lambda c, hi: ("x", vecs(c, "x", 0, hi))
        r = lambda c, n: ("r", rng(c.iv, 0, n + 1))
        if not con:
            for l, (f, i) in enumerate((("x", 0), ("x", 0), ("y", 1), ("y", 1))):
                R.loop(q, str(l), lambda c, f=f, i=i: [r(c, nV(c)), ("v", vecs(c, f, i, c.iv))] + ([X(c, nV(c))] if i else []))
        else:
            eqf = lambda c, fs, val, hi: [(f, allin(0, hi, lambda k: getattr(c.new.this, f)[k] == val(k), pats=lambda k: [getattr(c.new.this, f)[k]])) for f in fs]
            I = [lambda c: [r(c, nV(c)), X(c, c.iv)],
                 lambda c: [r(c, nC(c))] + eqf(c, ("Ax_l", "Ax_u"), lambda k: c.new.this.Ax[k], c.iv),
                 lambda c: [r(c, nV(c)), X(c, c.iv)],
                 lambda c: [r(c, nC(c))] + eqf(c, ("Ax", "Ax_l", "Ax_u"), lambda k: z0, c.iv)] + 2 * [lambda c: [r(c, nV(c) + nC(c)), ("v", vecs(c, "y", 1, c.iv))]]
            for l in range(6):
                R.loop(q, str(l), lambda c, l=l: I[((1, 2, 3, 5, 5, 5) if c.ex.top.variant else range(6))[l]](c))


def auxbounds(R):
    """the auxiliary QP has the given point as feasible point with the working set active"""
    def rows(c, con, part, hi):
        S, lo, up, pt, off, slk = sides(c, con)[part]
        n, o, E = c.new.this, me(c), c.E
        L, U, L0, U0 = getattr(n, lo), getattr(n, up), getattr(o, lo), getattr(o, up)
        pl = (lambda k: o.Ax_l[k]) if slk else (lambda k: o.x[k])
        pu = (lambda k: o.Ax_u[k]) if slk else (lambda k: o.x[k])
        d = o.options.boundRelaxation
        rel_ = c.old.argi(2 if con else 0) == E["BT_TRUE"]
        A = None if not con else c.old.argi(part).obj
        st = lambda k, s: S.status[k] == E[s]
        eq = lambda k: S.type[k] == E["ST_EQUALITY"]
        was = lambda k, s: And(rng(k, 0, A.n), A.status[k] == E[s]) if con else F
        wl = lambda k: If(st(k, "ST_LOWER"), pl(k), If(st(k, "ST_UPPER"), If(eq(k), pu(k), If(rel_, pu(k) - d, L0[k])), If(And(st(k, "ST_INACTIVE"), rel_), If(Or(eq(k), was(k, "ST_LOWER")), pl(k), pl(k) - d), L0[k])))
        wu = lambda k: If(st(k, "ST_UPPER"), pu(k), If(st(k, "ST_LOWER"), If(eq(k), pl(k), If(rel_, pl(k) + d, U0[k])), If(And(st(k, "ST_INACTIVE"), rel_), If(Or(eq(k), was(k, "ST_UPPER")), pu(k), pu(k) + d), U0[k])))
        pick = lambda k, a, b: If(k < hi, a, b)
        nm = ("bounds", "constraints")[part]
        out = [(nm + "-lower", allin(0, S.n, lambda k: L[k] == pick(k, wl(k), L0[k]), pats=lambda k: [L[k]])),
               (nm + "-upper", allin(0, S.n, lambda k: U[k] == pick(k, wu(k), U0[k]), pats=lambda k: [U[k]]))]
        if slk:
            out.append((nm + "-slack-lower", allin(0, S.n, lambda k: n.Ax_l[k] == pick(k, pl(k) - wl(k), pl(k)), pats=lambda k: [n.Ax_l[k]])))
            out.append((nm + "-slack-upper", allin(0, S.n, lambda k: n.Ax_u[k] == pick(k, wu(k) - pu(k), pu(k)), pats=lambda k: [n.Ax_u[k]])))
        return out

    def okst(c, S):
        E = c.E
        return [("status", allin(0, S.n, lambda k: Or(*[S.status[k] == E[s] for s in ("ST_INACTIVE", "ST_LOWER", "ST_UPPER", "ST_INFEASIBLE_LOWER", "ST_INFEASIBLE_UPPER")]), pats=lambda k: [S.status[k]]))]
    for con in (False, True):
        q = ("QProblem" if con else "QProblemB") + "::setupAuxiliaryQPbounds"

        def req(c, con=con):
            out = base(c, con, ["x", "lb", "ub"] + (["lbA", "ubA", "Ax", "Ax_l", "Ax_u"] if con else [])) + okst(c, me(c).bounds)
            if con:
                out += okst(c, me(c).constraints)
                for i, S in ((0, me(c).bounds), (1, me(c).constraints)):
                    A = c.old.argi(i)
                    out += [("aux%d" % i, And(Not(A.null), A.obj.n >= 0, Implies(A.obj.n > 0, And(Not(A.obj.status.null), A.obj.status.size >= A.obj.n))))]
            return out
        R.add(q, only_variant=True, requires=req, ensures=lambda c, con=con: [("ret", c.ret == 0)] + rows(c, con, 0, nV(c)) + (rows(c, con, 1, nC(c)) if con else []),
              modifies=lambda c, con=con: arrmods(c, ["lb", "ub"] + (["lbA", "ubA", "Ax_l", "Ax_u"] if con else [])), auto=False)
        R.loop(q, "0", lambda c, con=con: [("r", rng(c.iv, 0, nV(c) + 1))] + rows(c, con, 0, c.iv))
        if con:
            R.loop(q, "1", lambda c, con=con: [("r", rng(c.iv, 0, nC(c) + 1))] + rows(c, con, 1, c.iv))


def setup(R):
    auxsolution(R)
    auxbounds(R)
    matrices(R)
    shift(R)
    length(R)
    gradient(R)
    drift(R)
    ramping(R)
    far(R)
    return R
