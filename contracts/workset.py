"""C02: working sets of bounds and constraints (SubjectTo, Bounds, Constraints)."""
from qpv.dsl import *
from contracts.indexlist import wf, alloc, sorted_, surj, notmember, isprover, A

POS = z3.Function("POS", A, Int, Int, Int)       # choice: position of number i in a list


def pos(L, i):
    return POS(L.number.arr, L.length, i)


def member_at(L, p, i):
    return And(rng(p, 0, L.length), L.number[p] == i)


class K:
    def __init__(self, cls, F, X, setup, toF, toX, moveErr, setupErr, swap):
        self.cls, self.F, self.X, self.setup, self.toF, self.toX, self.moveErr, self.setupErr, self.swap = cls, F, X, setup, toF, toX, moveErr, setupErr, swap

    def f(self, B):
        return getattr(B, self.F)

    def x(self, B):
        return getattr(B, self.X)


KB = K("Bounds", "freee", "fixed", "setupBound", "moveFixedToFree", "moveFreeToFixed", "RET_MOVING_BOUND_FAILED", "RET_SETUP_BOUND_FAILED", "swapFree")
KC = K("Constraints", "inactive", "active", "setupConstraint", "moveActiveToInactive", "moveInactiveToActive", "RET_MOVING_CONSTRAINT_FAILED", "RET_SETUP_CONSTRAINT_FAILED", None)


def arrays(B):
    n = B.n
    return [("n", n >= 0),
            ("alloc", Implies(n > 0, And(Not(B.type.null), Not(B.status.null), B.type.size == n, B.status.size == n)))]


def isf(c, s):
    return s == c.E["ST_INACTIVE"]


def isx(c, s):
    return Or(s == c.E["ST_LOWER"], s == c.E["ST_UPPER"])


def kinds(c, B, undef=True):
    return [("status-kind", allin(0, B.n, lambda i: Or(isf(c, B.status[i]), isx(c, B.status[i]), *([B.status[i] == c.E["ST_UNDEFINED"]] if undef else [])),
                                  pats=lambda i: [B.status[i]]))]


def listed(c, B, L, tst, nm, cands=None):
    n = B.n
    out = [(nm + "-only", allin(0, L.length, lambda k: And(rng(L.number[k], 0, n), tst(c, B.status[L.number[k]])), pats=lambda k: [L.number[k]]))]
    if cands is None:
        out.append((nm + "-all", allin(0, n, lambda i: Implies(tst(c, B.status[i]), member_at(L, pos(L, i), i)), pats=lambda i: [B.status[i], pos(L, i)])))
    else:
        out.append((nm + "-all", allin(0, n, lambda i: Implies(tst(c, B.status[i]), Or([member_at(L, p, i) for p in cands(i)])))))
    return out


def inv(c, k, B, undef=True, fc=None, xc=None, lists=True):
    F, X = k.f(B), k.x(B)
    out = arrays(B) + kinds(c, B, undef)
    for L, t, nm, cd in ((F, isf, "free", fc), (X, isx, "fixed", xc)):
        if lists:
            out += [(nm + ":" + a, b) for a, b in wf(L)]
        out += [(nm + ":cap", L.physicallength == B.n)]
        out += listed(c, B, L, t, nm, cd)
    return out


def arrsame(a, b, n, but=None):
    return forall(lambda i: Implies(And(rng(i, 0, n), *([i != but] if but is not None else [])), a[i] == b[i]), pats=lambda i: [a[i]])


def listsame(o, n):
    return And(n.length == o.length, forall(lambda k: Implies(rng(k, 0, o.length), n.number[k] == o.number[k]), pats=lambda k: [n.number[k]]))


def notfull(L, n, x):
    """pigeonhole: a list of distinct numbers of [0,n) that has n entries contains x"""
    return Implies(And(L.length >= n, L.length <= n, rng(x, 0, n)),
                   And(L.number[L.iSort[0]] >= 0, L.number[L.iSort[n - 1]] <= n - 1, L.number[L.iSort[x]] == x))


def setup(R):
    for k in (KB, KC):
        setup_k(R, k)
    setup_subject(R)


def mods(k, *parts):
    def m(c):
        B = c.old.this
        out = []
        for p in parts:
            if p == "status":
                out += marr(B.status)
            elif p == "type":
                out += marr(B.type)
            else:
                L = k.f(B) if p == "F" else k.x(B)
                out += [mfield(L, "length")] + marr(L.number) + marr(L.iSort)
        return out
    return m


def setup_k(R, k):
    q = k.cls + "::"

    def inr(c):
        return rng(c.old.argi(0), 0, c.old.this.n)

    def unchanged(c, types=True):
        o, n = c.old.this, c.new.this
        return And(arrsame(n.status, o.status, o.n), listsame(k.f(o), k.f(n)), listsame(k.x(o), k.x(n)))

    # -- setupBound / setupConstraint
    def setup_post(c):
        o, n, x, s = c.old.this, c.new.this, c.old.argi(0), c.old.argi(1)
        ok = And(inr(c), Or(isf(c, s), isx(c, s)))
        oF, oX, nF, nX = k.f(o), k.x(o), k.f(n), k.x(n)
        out = []
        if isprover(c):
            out += [("lemma:room-free", notfull(oF, o.n, x)), ("lemma:room-fixed", notfull(oX, o.n, x))]
        out += [("code", c.ret == If(Not(inr(c)), z3.IntVal(c.E["RET_INDEX_OUT_OF_BOUNDS"]), If(ok, z3.IntVal(0), z3.IntVal(c.E["RET_INVALID_ARGUMENTS"])))),
                ("error-unchanged", Implies(Not(ok), unchanged(c))),
                ("status", Implies(ok, And(n.status[x] == s, arrsame(n.status, o.status, o.n, x)))),
                ("to-free", Implies(And(ok, isf(c, s)), And(nF.length == oF.length + 1, nF.number[oF.length] == x,
                                                            forall(lambda j: Implies(rng(j, 0, oF.length), nF.number[j] == oF.number[j]), pats=lambda j: [nF.number[j]]), listsame(oX, nX)))),
                ("to-fixed", Implies(And(ok, isx(c, s)), And(nX.length == oX.length + 1, nX.number[oX.length] == x,
                                                             forall(lambda j: Implies(rng(j, 0, oX.length), nX.number[j] == oX.number[j]), pats=lambda j: [nX.number[j]]), listsame(oF, nF))))]
        if isprover(c):
            out += [("inv:" + a, b) for a, b in inv(c, k, n, True, lambda i: [pos(oF, i), oF.length], lambda i: [pos(oX, i), oX.length])]
        else:
            out += [("inv:" + a, b) for a, b in inv(c, k, n)]
        return out

    R.add(q + k.setup, requires=lambda c: inv(c, k, c.old.this) + [("new", Implies(inr(c), c.old.this.status[c.old.argi(0)] == c.E["ST_UNDEFINED"]))],
          ensures=setup_post, modifies=mods(k, "status", "F", "X"))

    # -- moves
    def move_req(c, toF):
        s = c.old.this.status[c.old.argi(0)]
        out = inv(c, k, c.old.this) + [("source", Implies(inr(c), isx(c, s) if toF else isf(c, s)))]
        if not toF:
            out += [("target", isx(c, c.old.argi(1)))]
        return out

    def move_post(c, toF):
        o, n, x = c.old.this, c.new.this, c.old.argi(0)
        s = z3.IntVal(c.E["ST_INACTIVE"]) if toF else c.old.argi(1)
        src, dst = (k.x, k.f) if toF else (k.f, k.x)
        oS, nS, oD, nD = src(o), src(n), dst(o), dst(n)
        ok = inr(c)
        out = []
        if isprover(c):
            out += [("lemma:room", notfull(oD, o.n, x))]
        out += [("code", c.ret == If(ok, z3.IntVal(0), z3.IntVal(c.E["RET_INDEX_OUT_OF_BOUNDS"]))),
                ("error-unchanged", Implies(Not(ok), unchanged(c))),
                ("status", Implies(ok, And(n.status[x] == s, arrsame(n.status, o.status, o.n, x)))),
                ("appended", Implies(ok, And(nD.length == oD.length + 1, nD.number[oD.length] == x,
                                             forall(lambda j: Implies(rng(j, 0, oD.length), nD.number[j] == oD.number[j]), pats=lambda j: [nD.number[j]])))),
                ("removed", Implies(ok, And(nS.length == oS.length - 1, forall(lambda j: Implies(rng(j, 0, nS.length),
                    nS.number[j] == If(j < pos(oS, x), oS.number[j], oS.number[j + 1])), pats=lambda j: [nS.number[j]]))))]
        if isprover(c):
            cs, cd = (lambda i: [pos(oS, i), pos(oS, i) - 1]), (lambda i: [pos(oD, i), oD.length])
            out += [("inv:" + a, b) for a, b in inv(c, k, n, True, cd if toF else cs, cs if toF else cd)]
        else:
            out += [("inv:" + a, b) for a, b in inv(c, k, n)]
        return out

    R.add(q + k.toF, requires=lambda c: move_req(c, True), ensures=lambda c: move_post(c, True), modifies=mods(k, "status", "F", "X"))
    R.add(q + k.toX, requires=lambda c: move_req(c, False), ensures=lambda c: move_post(c, False), modifies=mods(k, "status", "F", "X"))

    # -- flip
    def flip_post(c):
        o, n, x = c.old.this, c.new.this, c.old.argi(0)
        lo, up = z3.IntVal(c.E["ST_LOWER"]), z3.IntVal(c.E["ST_UPPER"])
        ok = And(inr(c), isx(c, o.status[x]))
        out = [("code", c.ret == If(Not(inr(c)), z3.IntVal(c.E["RET_INDEX_OUT_OF_BOUNDS"]), If(ok, z3.IntVal(0), z3.IntVal(c.E[k.moveErr])))),
               ("flipped", Implies(ok, And(n.status[x] == If(o.status[x] == lo, up, lo), arrsame(n.status, o.status, o.n, x)))),
               ("error-unchanged", Implies(Not(ok), arrsame(n.status, o.status, o.n)))]
        return out + [("inv:" + a, b) for a, b in inv(c, k, n)]
    R.add(q + "flipFixed", requires=lambda c: inv(c, k, c.old.this), ensures=flip_post, modifies=mods(k, "status"))

    # -- swap in the list of free variables
    if k.swap:
        def swap_post(c):
            o, n, a, b = c.old.this, c.new.this, c.old.argi(0), c.old.argi(1)
            inb = And(rng(a, 0, o.n), rng(b, 0, o.n))
            same = o.status[a] == o.status[b]
            oF, nF = k.f(o), k.f(n)
            fr = And(inb, same, isf(c, o.status[a]))
            out = [("code", c.ret == If(Not(inb), z3.IntVal(c.E["RET_INDEX_OUT_OF_BOUNDS"]),
                                        If(And(same, Or(a == b, isf(c, o.status[a]))), z3.IntVal(0), z3.IntVal(c.E["RET_SWAPINDEX_FAILED"])))),
                   ("swapped", Implies(fr, And(nF.length == oF.length, forall(lambda j: Implies(rng(j, 0, oF.length), nF.number[j] ==
                        If(oF.number[j] == a, b, If(oF.number[j] == b, a, oF.number[j]))), pats=lambda j: [nF.number[j]])))),
                   ("error-unchanged", Implies(Not(fr), listsame(oF, nF)))]
            if isprover(c):
                return out + [("inv:" + x, y) for x, y in inv(c, k, n, True, lambda i: [pos(oF, i), pos(oF, a), pos(oF, b)])]
            return out + [("inv:" + x, y) for x, y in inv(c, k, n)]
        R.add(q + k.swap, requires=lambda c: inv(c, k, c.old.this), ensures=swap_post, modifies=mods(k, "F"))

    # -- setupAll
    def rank(c, t):
        return If(t == c.E["ST_UNBOUNDED"], z3.IntVal(0), If(t == c.E["ST_BOUNDED"], z3.IntVal(1), If(t == c.E["ST_EQUALITY"], z3.IntVal(2), z3.IntVal(3))))

    def types_ok(c, B):
        return [("types", allin(0, B.n, lambda i: Or([B.type[i] == c.E[t] for t in ("ST_UNBOUNDED", "ST_BOUNDED", "ST_EQUALITY", "ST_UNKNOWN", "ST_DISABLED")]), pats=lambda i: [B.type[i]]))]

    def fresh(c, B):
        return inv(c, k, B) + types_ok(c, B) + [("empty", And(k.f(B).length == 0, k.x(B).length == 0)),
                                                ("undefined", allin(0, B.n, lambda i: B.status[i] == c.E["ST_UNDEFINED"], pats=lambda i: [B.status[i]]))]

    def ordered(c, B, L):
        def lt(a, b):
            ra, rb = rank(c, B.type[a]), rank(c, B.type[b])
            return Or(ra < rb, And(ra == rb, a < b))
        return forall(lambda i, j: Implies(And(0 <= i, i < j, j < L.length), lt(L.number[i], L.number[j])), 2, pats=lambda i, j: [[L.number[i], L.number[j]]])

    def setupall_post(c):
        o, n, s = c.old.this, c.new.this, c.old.argi(0)
        return [("code", c.ret == 0),
                ("all", allin(0, o.n, lambda i: n.status[i] == s, pats=lambda i: [n.status[i]])),
                ("order", And(ordered(c, n, k.f(n)), ordered(c, n, k.x(n))))] + [("inv:" + a, b) for a, b in inv(c, k, n)]
    R.add(q + "setupAll", requires=lambda c: fresh(c, c.old.this) + [("status", Or(isf(c, c.old.argi(0)), isx(c, c.old.argi(0))))],
          ensures=setupall_post, modifies=mods(k, "status", "F", "X"))

    def all_loop(stage):
        def fn(c):
            o, n, s, i = c.old.this, c.new.this, c.old.argi(0), c.v("i")
            B = n
            donef = lambda j: Or(rank(c, o.type[j]) < stage, And(rank(c, o.type[j]) == stage, j < i))
            out = [("range", And(0 <= i, i <= o.n)),
                   ("done", allin(0, o.n, lambda j: n.status[j] == If(donef(j), s, z3.IntVal(c.E["ST_UNDEFINED"])), pats=lambda j: [n.status[j]])),
                   ("order", And(ordered(c, n, k.f(n)), ordered(c, n, k.x(n))))]
            return out + [("inv:" + a, b) for a, b in inv(c, k, n)]
        return fn
    for st in range(4):
        R.loop(q + "setupAll", str(st))(all_loop(st))
    for nm, s in (("setupAllFree" if k is KB else "setupAllInactive", "ST_INACTIVE"), ("setupAllLower", "ST_LOWER"), ("setupAllUpper", "ST_UPPER")):
        def post(c, s=s):
            o, n = c.old.this, c.new.this
            return [("code", c.ret == 0), ("all", allin(0, o.n, lambda i: n.status[i] == c.E[s], pats=lambda i: [n.status[i]])),
                    ("order", And(ordered(c, n, k.f(n)), ordered(c, n, k.x(n))))] + [("inv:" + a, b) for a, b in inv(c, k, n)]
        R.add(q + nm, requires=lambda c: fresh(c, c.old.this), ensures=post, modifies=mods(k, "status", "F", "X"))

    # -- shift / rotate: lists are rebuilt in ascending order
    def ascending(c, B, L):
        return forall(lambda i, j: Implies(And(0 <= i, i < j, j < L.length), L.number[i] < L.number[j]), 2, pats=lambda i, j: [[L.number[i], L.number[j]]])

    def full(c, B):
        return inv(c, k, B, undef=False)

    def rebuilt(c, n, mapped):
        o = c.old.this
        return [("types", allin(0, o.n, lambda i: n.type[i] == mapped(o.type, i), pats=lambda i: [n.type[i]])),
                ("status", allin(0, o.n, lambda i: n.status[i] == mapped(o.status, i), pats=lambda i: [n.status[i]])),
                ("ascending", And(ascending(c, n, k.f(n)), ascending(c, n, k.x(n))))]

    def allmod(c):
        return [mprefix(k.f(c.old.this)), mprefix(k.x(c.old.this))] + marr(c.old.this.status) + marr(c.old.this.type)

    def rebuild_inv(c, fname, xname, i):
        """loop invariant of the rebuild loop; fname/xname local lists"""
        n = c.new.this
        F, X = c.v(fname), c.v(xname)
        out = [("range", And(0 <= i, i <= n.n))]
        for L, t, nm in ((F, isf, "free"), (X, isx, "fixed")):
            out += [(nm + ":" + a, b) for a, b in wf(L)] + [(nm + ":cap", L.physicallength == n.n)]
            out += [(nm + "-only", allin(0, L.length, lambda q: And(rng(L.number[q], 0, i), t(c, n.status[L.number[q]])), pats=lambda q: [L.number[q]])),
                    (nm + "-all", allin(0, i, lambda q: Implies(t(c, n.status[q]), member_at(L, pos(L, q), q)), pats=lambda q: [n.status[q], pos(L, q)])),
                    (nm + "-len", L.length <= i), (nm + "-asc", ascending(c, n, L))]
        return out

    def shift_map(c, arr, i):
        o, off = c.old.this, c.old.argi(0)
        return If(i < o.n - off, arr[i + off], arr[i])

    def listinv(c, n):
        return [("inv:" + a, b) for a, b in inv(c, k, n, undef=False)]

    def shift_post(c):
        o, n, off = c.old.this, c.new.this, c.old.argi(0)
        E = c.E
        triv = Or(off == 0, o.n <= 1)
        bad = Or(off < 0, off > o.n / 2)
        err = If(bad, z3.IntVal(E["RET_INDEX_OUT_OF_BOUNDS"]), If(o.n % off != 0, z3.IntVal(E["RET_INVALID_ARGUMENTS"]), z3.IntVal(0)))
        out = [("code", c.ret == If(triv, z3.IntVal(0), err)),
               ("error-unchanged", Implies(Or(triv, err != 0), And(unchanged(c), arrsame(n.type, o.type, o.n))))]
        out += [("shifted-" + a, Implies(And(Not(triv), err == 0), b)) for a, b in rebuilt(c, n, lambda arr, i: shift_map(c, arr, i))]
        return out + listinv(c, n)
    R.add(q + "shift", only_variant=True, requires=lambda c: full(c, c.old.this), ensures=shift_post, modifies=allmod)

    def shift_loop(c):
        o, n, off, i = c.ent.this, c.new.this, c.old.argi(0), c.v("i")
        out = [("range", And(0 <= i, i <= o.n - off))]
        for a in ("type", "status"):
            N, O = getattr(n, a), getattr(o, a)
            out += [(a + "-done", allin(0, i, lambda j: N[j] == O[j + off], pats=lambda j: [N[j]])),
                    (a + "-rest", allin(i, o.n, lambda j: N[j] == O[j], pats=lambda j: [N[j]]))]
        return out
    fn, xn = ("shiftedFreee", "shiftedFixed") if k is KB else ("shiftedInactive", "shiftedActive")
    R.loop(q + "shift", "0")(shift_loop)
    R.loop(q + "shift", "1")(lambda c: rebuild_inv(c, fn, xn, c.v("i")))

    # rotate
    def rot_map(c, arr, i):
        o, off = c.old.this, c.old.argi(0)
        return If(i < o.n - off, arr[i + off], arr[i - o.n + off])

    def rot_post(c):
        o, n, off = c.old.this, c.new.this, c.old.argi(0)
        E = c.E
        triv = Or(off == 0, off == o.n, o.n <= 1)
        err = If(Or(off < 0, off > o.n), z3.IntVal(E["RET_INDEX_OUT_OF_BOUNDS"]), z3.IntVal(0))
        out = [("code", c.ret == If(triv, z3.IntVal(0), err)),
               ("error-unchanged", Implies(Or(triv, err != 0), And(unchanged(c), arrsame(n.type, o.type, o.n))))]
        out += [("rotated-" + a, Implies(And(Not(triv), err == 0), b)) for a, b in rebuilt(c, n, lambda arr, i: rot_map(c, arr, i))]
        return out + listinv(c, n)
    R.add(q + "rotate", only_variant=True, requires=lambda c: full(c, c.old.this), ensures=rot_post, modifies=allmod)

    def rot0(c):
        o, i = c.ent.this, c.v("i")
        out = [("range", And(0 <= i, i <= c.old.argi(0)))]
        for a, t in (("type", "typeTmp"), ("status", "statusTmp")):
            T_, O = c.v(t), getattr(o, a)
            out += [(a + "-saved", allin(0, i, lambda j: T_[j] == O[j], pats=lambda j: [T_[j]]))]
        return out

    def rot2(c):
        o, n, off, i = c.ent.this, c.new.this, c.old.argi(0), c.v("i")
        out = [("range", And(o.n - off <= i, i <= o.n))]
        for a, t in (("type", "typeTmp"), ("status", "statusTmp")):
            N, O, T_ = getattr(n, a), getattr(o, a), c.v(t)
            out += [(a + "-done", allin(o.n - off, i, lambda j: N[j] == T_[j - o.n + off], pats=lambda j: [N[j]])),
                    (a + "-rest", forall(lambda j: Implies(And(0 <= j, j < o.n, Or(j < o.n - off, j >= i)), N[j] == O[j]), pats=lambda j: [N[j]]))]
        return out
    R.loop(q + "rotate", "0")(rot0)
    R.loop(q + "rotate", "1")(shift_loop)
    R.loop(q + "rotate", "2")(rot2)
    fr, xr = ("rotatedFreee", "rotatedFixed") if k is KB else ("rotatedInactive", "rotatedActive")
    R.loop(q + "rotate", "3")(lambda c: rebuild_inv(c, fr, xr, c.v("i")))

    # -- construction, init, copies
    def init_post(c, ctor=False):
        n, m = c.new.this, c.old.argi(0)
        E = c.E
        ok = m >= 0
        out = [] if ctor else [("code", c.ret == If(ok, z3.IntVal(0), z3.IntVal(E["RET_INVALID_ARGUMENTS"])))]
        fresh_ = [("n", n.n == m), ("nolower", And(n.noLower == 1, n.noUpper == 1)), ("empty", And(k.f(n).length == 0, k.x(n).length == 0, k.f(n).physicallength == m, k.x(n).physicallength == m))]
        fresh_ += arrays(n)
        if not n.type.none:
            fresh_ += [("fresh", allin(0, m, lambda i: And(n.type[i] == E["ST_UNKNOWN"], n.status[i] == E["ST_UNDEFINED"])))]
        fresh_ += [(nm + a, b) for nm, L in (("free:", k.f(n)), ("fixed:", k.x(n))) for a, b in alloc(L)]
        return out + [(a, Implies(ok, b)) for a, b in fresh_]

    def own(c, B):
        return [("own", And(k.f(B).number.null == k.f(B).iSort.null, k.x(B).number.null == k.x(B).iSort.null))]

    R.add(q + "init", only_variant=True, requires=lambda c: own(c, c.old.this), ensures=init_post, modifies=lambda c: [mprefix(c.old.this)])
    R.add(q + k.cls, sig="void (int_t)", variant="n", only_variant=True, requires=lambda c: [("n", c.old.argi(0) >= 0)],
          ensures=lambda c: init_post(c, True), modifies=lambda c: [mprefix(c.old.this)])

    def copy_post(c):
        n, r = c.new.this, c.old.argi(0)
        out = [("n", And(n.n == r.n, n.noLower == r.noLower, n.noUpper == r.noUpper))] + arrays(n)
        for L, S, nm in ((k.f(n), k.f(r), "free"), (k.x(n), k.x(r), "fixed")):
            out += [(nm + ":" + a, b) for a, b in alloc(L)]
            out += [(nm + ":cap", And(L.physicallength == S.physicallength, L.length == S.length))]
            if not L.number.none:
                out += [(nm + ":number", Implies(S.physicallength > 0, allin(0, S.length, lambda j: L.number[j] == S.number[j], pats=lambda j: [L.number[j]]))),
                        (nm + ":iSort", Implies(S.physicallength > 0, allin(0, S.length, lambda j: L.iSort[j] == S.iSort[j], pats=lambda j: [L.iSort[j]]))),
                        (nm + ":deep", And(Implies(Not(L.number.null), Not(L.number.eq(S.number))), Implies(Not(L.iSort.null), Not(L.iSort.eq(S.iSort)))))]
        if not n.type.none:
            out += [("types", allin(0, r.n, lambda i: n.type[i] == r.type[i], pats=lambda i: [n.type[i]])),
                    ("status", allin(0, r.n, lambda i: n.status[i] == r.status[i], pats=lambda i: [n.status[i]])),
                    ("deep", Implies(r.n > 0, And(Not(n.type.eq(r.type)), Not(n.status.eq(r.status)))))]
        return out
    R.add(q + k.cls, sig="void (const %s &)" % k.cls, variant="copy", only_variant=True, requires=lambda c: inv(c, k, c.old.argi(0)), ensures=copy_post,
          modifies=lambda c: [mprefix(c.old.this)])
    R.add(q + "operator=", only_variant=True, requires=lambda c: inv(c, k, c.old.argi(0)) + own(c, c.old.this), ensures=copy_post, modifies=lambda c: [mprefix(c.old.this)])


CNT = z3.Function("CNT", A, Int, Int, Int)        # CNT(a,i,v): how many of a[0..i) equal v


def cnt(a, i, v):
    return CNT(a.arr, i, v)


register_spec(CNT, lambda a, i, v, depth=0: [Implies(i <= 0, CNT(a, i, v) == 0),
              Implies(i > 0, CNT(a, i, v) == CNT(a, i - 1, v) + If(a[i - 1] == v, z3.IntVal(1), z3.IntVal(0)))])
register_spec(POS, lambda a, n, x, depth=0: [forall(lambda p: Implies(And(rng(p, 0, n), a[p] == x), And(rng(POS(a, n, x), 0, n), a[POS(a, n, x)] == x)), pats=lambda p: [a[p]])])


def setup_subject(R):
    q = "SubjectTo::"

    def get(field, dflt):
        def post(c):
            o, i = c.old.this, c.old.argi(0)
            return [("value", c.ret == If(rng(i, 0, o.n), getattr(o, field)[i], z3.IntVal(c.E[dflt])))]
        return post
    R.add(q + "getType", pure=True, only_variant=True, requires=lambda c: arrays(c.old.this), ensures=get("type", "ST_UNKNOWN"))
    R.add(q + "getStatus", pure=True, only_variant=True, requires=lambda c: arrays(c.old.this), ensures=get("status", "ST_UNDEFINED"))

    def put(field):
        def post(c):
            o, n, i, v = c.old.this, c.new.this, c.old.argi(0), c.old.argi(1)
            ok = rng(i, 0, o.n)
            a, b = getattr(n, field), getattr(o, field)
            return [("code", c.ret == If(ok, z3.IntVal(0), z3.IntVal(c.E["RET_INDEX_OUT_OF_BOUNDS"]))),
                    ("set", Implies(ok, a[i] == v)),
                    ("others", forall(lambda j: Implies(And(rng(j, 0, o.n), Or(Not(ok), j != i)), a[j] == b[j]), pats=lambda j: [a[j]]))]
        return post
    R.add(q + "setType", only_variant=True, requires=lambda c: arrays(c.old.this), ensures=put("type"), modifies=lambda c: marr(c.old.this.type))
    R.add(q + "setStatus", only_variant=True, requires=lambda c: arrays(c.old.this), ensures=put("status"), modifies=lambda c: marr(c.old.this.status))
    R.add(q + "getNumberOfType", pure=True, only_variant=True, requires=lambda c: arrays(c.old.this),
          ensures=lambda c: [("count", c.ret == If(c.old.this.n > 0, cnt(c.old.this.type, c.old.this.n, c.old.argi(0)), z3.IntVal(0)))] if not c.old.this.type.none else [("count", c.ret == 0)])
    R.loop(q + "getNumberOfType", "0")(lambda c: [("range", And(0 <= c.v("i"), c.v("i") <= c.old.this.n)),
                                                ("count", c.v("numberOfType") == cnt(c.old.this.type, c.v("i"), c.old.argi(0)))])
