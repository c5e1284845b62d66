"""helpers for writing contracts"""
import z3
from .sym import *
from .execu import mfield, marr, mref, mprefix, mnew, Ctx, SV
from .solve import register_spec, register_lemma

_n = [0]


def var(nm="k"):
    _n[0] += 1
    return z3.Int("%s?%d" % (nm, _n[0]))


def forall(f, n=1, pats=None):
    """forall(lambda k: body) ; pats: lambda k: [terms]"""
    vs = [var() for _ in range(n)]
    b = f(*vs)
    if pats is None:
        return z3.ForAll(vs, b)
    ps = pats(*vs)
    for p in ps:
        for q in (p if isinstance(p, (list, tuple)) else [p]):
            if has_ite(q):
                return z3.ForAll(vs, b)
    ps = [z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in ps]
    return z3.ForAll(vs, b, patterns=ps)


def has_ite(p):
    st, seen = [p] if z3.is_expr(p) else [p.arg(i) for i in range(p.num_args())] if hasattr(p, "num_args") else [p], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            return True
        st.extend(x.children())
    return False


def rng(k, lo, hi):
    return And(lo <= k, k < hi)


def allin(lo, hi, f, pats=None):
    return forall(lambda k: Implies(rng(k, lo, hi), f(k)), 1, pats)


def arr_same(a, b, lo, hi):
    """a[k]==b[k] on lo<=k<hi"""
    return forall(lambda k: Implies(rng(k, lo, hi), a[k] == b[k]))


def absr(x):
    return If(x >= 0, x, -x)


def maxr(a, b):
    return If(a >= b, a, b)


# ---- sums of products:  DOT(al,A,a0,da,B,b0,db,n) = sum_{i<n} al*A[a0+da*i]*B[b0+db*i]
RA = z3.ArraySort(Int, Real)
IA = z3.ArraySort(Int, Int)
DOT = z3.Function("DOT", Real, RA, Int, Int, RA, Int, Int, Int, Real)


def _dot_unfold(al, A, a0, da, B, b0, db, n, depth=0):
    if depth > 0:
        return []
    n1 = z3.simplify(n - 1)
    t = DOT(al, A, a0, da, B, b0, db, n)
    p = DOT(al, A, a0, da, B, b0, db, n1)
    x = A[z3.simplify(a0 + imul(da, n1))]
    y = B[z3.simplify(b0 + imul(db, n1))]
    return [Implies(n <= 0, t == 0), Implies(And(n > 0, al == 1), t == p + rmul(x, y)), Implies(And(n > 0, al == -1), t == p - rmul(x, y)), Implies(n > 0, t == p + al * rmul(x, y))]


register_spec(DOT, _dot_unfold)

# a dot product in which the entries are taken at listed places: sum_{i<n} al*A[a0+N[S[i]]]*B[b0+M[S[i]]]
DOTL = z3.Function("DOTL", Real, RA, Int, Int, IA, RA, Int, IA, Int, Real)


def _dotl_unfold(al, A, a0, da, N, B, b0, S, n, depth=0):
    """DOTL = sum_{i<n} al*A[a0+da*N[S[i]]]*B[b0+S[i]]"""
    if depth > 0:
        return []
    n1 = z3.simplify(n - 1)
    t = DOTL(al, A, a0, da, N, B, b0, S, n)
    p = DOTL(al, A, a0, da, N, B, b0, S, n1)
    x = A[z3.simplify(a0 + imul(da, N[S[n1]]))]
    y = B[z3.simplify(b0 + S[n1])]
    return [Implies(n <= 0, t == 0), Implies(And(n > 0, al == 1), t == p + rmul(x, y)), Implies(And(n > 0, al == -1), t == p - rmul(x, y)), Implies(n > 0, t == p + al * rmul(x, y))]


register_spec(DOTL, _dotl_unfold)

DOTN = z3.Function("DOTN", RA, Int, IA, RA, Int, Int, Real)


def _dotn_unfold(A, a0, N, B, b0, n, depth=0):
    """DOTN = sum_{i<n} A[a0+N[i]]*B[b0+N[i]]"""
    if depth > 0:
        return []
    n1 = z3.simplify(n - 1)
    t = DOTN(A, a0, N, B, b0, n)
    return [Implies(n <= 0, t == 0), Implies(n > 0, t == DOTN(A, a0, N, B, b0, n1) + A[z3.simplify(a0 + N[n1])] * B[z3.simplify(b0 + N[n1])])]


register_spec(DOTN, _dotn_unfold)

BIL = z3.Function("BIL", RA, Int, IA, RA, Int, Int, Int, Int, Real)


def _bil_unfold(H, ld, N, X, bj, bk, m, n, depth=0):
    """BIL = sum_{i<n} X[bj+N[i]] * DOTN(H, ld*N[i], N, X, bk, m)"""
    if depth > 0:
        return []
    n1 = z3.simplify(n - 1)
    t = BIL(H, ld, N, X, bj, bk, m, n)
    return [Implies(n <= 0, t == 0), Implies(n > 0, t == BIL(H, ld, N, X, bj, bk, m, n1) + X[z3.simplify(bj + N[n1])] * DOTN(H, imul(ld, N[n1]), N, X, bk, m))]


register_spec(BIL, _bil_unfold)

SABS = z3.Function("SABS", RA, Int, Int, Real)        # sum_{i<n} |A[a0+i]|
register_spec(SABS, lambda A, a0, n, depth=0: [] if depth else [Implies(n <= 0, SABS(A, a0, n) == 0),
              Implies(n > 0, SABS(A, a0, n) == SABS(A, a0, z3.simplify(n - 1)) + absr(A[z3.simplify(a0 + n - 1)]))])
# a product kept opaque: its definition is only unfolded where it occurs without quantified variables
MULR = z3.Function("MULR", Real, Real, Real)
register_spec(MULR, lambda a, b, depth=0: [MULR(a, b) == a * b])


def _mulr_lemmas():
    a, b, d = z3.Reals("a!M b!M d!M")
    st = Implies(And(a <= b, d >= 0), MULR(a, d) <= MULR(b, d))
    register_lemma("product-monotone", ["MULR"], z3.ForAll([a, b, d], st, patterns=[z3.MultiPattern(MULR(a, d), MULR(b, d))]), [([MULR(a, d) == a * d, MULR(b, d) == b * d], st)])


_mulr_lemmas()
ZERO = z3.RealVal("1e-25")


def snap(a):
    """the coefficient the library works with: values within 1e-25 of 1, -1 (0) are treated as these"""
    return If(absr(a - 1) <= ZERO, z3.RealVal(1), If(absr(a + 1) <= ZERO, z3.RealVal(-1), a))


def snap0(b):
    return If(absr(b) <= ZERO, z3.RealVal(0), If(absr(b + 1) <= ZERO, z3.RealVal(-1), If(absr(b - 1) <= ZERO, z3.RealVal(1), b)))


# ---- lemmas: a sum does not depend on entries outside its range (proved by induction on n)
def _frame_lemmas():
    al, v = z3.Reals("al!L v!L")
    A, B = z3.Consts("A!L B!L", RA)
    a0, b0, da, db, n, i = z3.Ints("a0!L b0!L da!L db!L n!L i!L")
    vs = [al, v, A, B, a0, b0, da, db, n, i]

    def out(x0, d, n):
        return Or(And(d == 1, Or(i < x0, i >= x0 + n)), And(d == -1, Or(i > x0, i <= x0 - n)))
    for nm, d, x0, L in (("dot-frame-right", db, b0, lambda m: DOT(al, A, a0, da, z3.Store(B, i, v), b0, db, m)), ("dot-frame-left", da, a0, lambda m: DOT(al, z3.Store(A, i, v), a0, da, B, b0, db, m))):
        R_ = lambda m: DOT(al, A, a0, da, B, b0, db, m)
        st = lambda m: Implies(out(x0, d, m), L(m) == R_(m))
        ax = z3.ForAll(vs, st(n), patterns=[L(n)])
        m1 = n + 1
        unf = _dot_unfold(*L(m1).children()) + _dot_unfold(*R_(m1).children())
        register_lemma(nm, ["DOT"], ax, [([n <= 0] + _dot_unfold(*L(n).children()) + _dot_unfold(*R_(n).children()), st(n)), ([n >= 0, st(n)] + unf, st(m1))])


_frame_lemmas()
