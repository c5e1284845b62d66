"""Models of library functions and of the error-reporting entry points.
Each model that is not definitional is reported as an assumption."""
import z3
from .sym import *
from .frontend import Ty, node_type

_sqrt = z3.Function("sqrt!", Real, Real)
_pow = z3.Function("pow", Real, Real, Real)
_unk = {}


def b_fabs(ex, n, args, st, fr):
    x = to_real(ex.ev(args[0], st, fr))
    return If(x >= 0, x, -x)


def b_sqrt(ex, n, args, st, fr):
    x = to_real(ex.ev(args[0], st, fr))
    r = _sqrt(x)
    ex.fact(Implies(x >= 0, And(r >= 0, r * r == x)))
    ex.fact(Implies(x > 0, r > 0))
    ex.assumptions.add("sqrt returns the exact non-negative square root of a non-negative argument")
    return r


def b_pow(ex, n, args, st, fr):
    x = to_real(ex.ev(args[0], st, fr))
    y = to_real(ex.ev(args[1], st, fr))
    ex.assumptions.add("pow is an uninterpreted function")
    return _pow(x, y)


def b_nop_int(ex, n, args, st, fr):
    for a in args:
        try:
            ex.ev(a, st, fr)
        except Unsupported:
            pass
    ex.assumptions.add("printing and time functions have no effect on program state")
    return ex.fresh("lib", Int)


def b_real_unknown(ex, n, args, st, fr):
    return ex.fresh("lib", Real)


def b_snprintf(ex, n, args, st, fr):
    p = ex.ev(args[0], st, fr)
    for a in args[1:]:
        try:
            ex.ev(a, st, fr)
        except Unsupported:
            pass
    for c, t in p.nonnull():
        if isinstance(t, Arr):
            a = st.arr(t.block, Int)
            st.arrs[t.block] = ex.fresh("buf", a.sort())
    ex.assumptions.add("snprintf/sprintf write only into their buffer and within its bounds")
    return ex.fresh("lib", Int)


def _count(ex, x, st, fr):
    """number of elements of a memcpy/memset size expression n*sizeof(T)"""
    while x["kind"] in ("ImplicitCastExpr", "ParenExpr"):
        x = ex.inner(x)
    if x["kind"] == "BinaryOperator" and x["opcode"] == "*":
        a, b = x["inner"]

        def has_sizeof(y):
            while y["kind"] in ("ImplicitCastExpr", "ParenExpr"):
                y = ex.inner(y)
            return y["kind"] == "UnaryExprOrTypeTraitExpr"
        if has_sizeof(b):
            return to_num(ex.ev(a, st, fr)), ex.ev(b, st, fr)
        if has_sizeof(a):
            return to_num(ex.ev(b, st, fr)), ex.ev(a, st, fr)
        # nested product: (n*m)*sizeof handled above; n*(m*sizeof)
    raise Unsupported("memcpy size expression")


def _strip(ex, a):
    while a["kind"] in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr") and a.get("castKind") in ("BitCast", "NoOp", None):
        a = ex.inner(a)
    return a


def b_memcpy(ex, n, args, st, fr):
    d = ex.ev(args[0], st, fr)
    s = ex.ev(args[1], st, fr)
    cnt, size = _count(ex, args[2], st, fr)
    ety = node_type(_strip(ex, args[0])).deref()
    line = n.get("_bl")
    srt = sort_of(ety)
    ex.oblige(st, cnt >= 0, "memcpy@%s:count" % line)
    esz = {"double": 8, "long": 8, "int": 4, "char": 1, "unsigned long": 8}.get(ety.base, None) if not ety.ptr else None
    if esz is None or not size.eq(z3.IntVal(esz)):
        if ety.base in ex.P.enum_of and size.eq(z3.IntVal(4)):
            pass
        else:
            raise Unsupported("memcpy element size")
    dn, sn = d.nonnull(), s.nonnull()
    ex.oblige(st, Implies(cnt > 0, And(Not(d.null), Not(s.null))), "memcpy@%s:nonnull" % line)
    if len(dn) != 1 or len(sn) != 1 or not isinstance(dn[0][1], Arr) or not isinstance(sn[0][1], Arr):
        if not dn or not sn:
            return d
        raise Unsupported("memcpy targets")
    dt, so = dn[0][1], sn[0][1]
    ex.oblige(st, Implies(cnt > 0, And(dt.off >= 0, dt.off + cnt <= ex.env.size(dt.block), Not(st.dead.get(dt.block, F)))),
              "memcpy@%s:dest-bounds" % line)
    ex.oblige(st, Implies(cnt > 0, And(so.off >= 0, so.off + cnt <= ex.env.size(so.block), Not(st.dead.get(so.block, F)))),
              "memcpy@%s:src-bounds" % line)
    da, sa = st.arr(dt.block, srt), st.arr(so.block, srt)
    na = ex.fresh("memcpy", da.sort())
    k = z3.Int("k!mc")
    src = sa[so.off + (k - dt.off)] if not (so.off.eq(dt.off)) else sa[k]
    src = z3.Select(sa, z3.simplify(so.off + (k - dt.off)))
    ex.fact(z3.ForAll([k], na[k] == If(And(k >= dt.off, k < dt.off + cnt), src, da[k]), patterns=[na[k]]))
    st.arrs[dt.block] = na
    return d


def b_memset(ex, n, args, st, fr):
    d = ex.ev(args[0], st, fr)
    v = ex.ev(args[1], st, fr)
    if not (z3.is_int_value(v) and v.as_long() == 0):
        raise Unsupported("memset non-zero")
    cnt, size = _count(ex, args[2], st, fr)
    ety = node_type(_strip(ex, args[0])).deref()
    srt = sort_of(ety)
    line = n.get("_bl")
    dn = d.nonnull()
    ex.oblige(st, cnt >= 0, "memset@%s:count" % line)
    ex.oblige(st, Implies(cnt > 0, Not(d.null)), "memset@%s:nonnull" % line)
    if len(dn) != 1 or not isinstance(dn[0][1], Arr):
        raise Unsupported("memset target")
    t = dn[0][1]
    ex.oblige(st, Implies(cnt > 0, And(t.off >= 0, t.off + cnt <= ex.env.size(t.block), Not(st.dead.get(t.block, F)))),
              "memset@%s:bounds" % line)
    da = st.arr(t.block, srt)
    na = ex.fresh("memset", da.sort())
    k = z3.Int("k!ms")
    zero = z3.IntVal(0) if srt == Int else z3.RealVal(0)
    ex.fact(z3.ForAll([k], na[k] == If(And(k >= t.off, k < t.off + cnt), zero, da[k]), patterns=[na[k]]))
    st.arrs[t.block] = na
    return d


def b_ptr_opaque(ex, n, args, st, fr):
    for a in args:
        try:
            ex.ev(a, st, fr)
        except Unsupported:
            pass
    c = ex.fresh("libnull", Bool)
    return Ptr([(c, None), (Not(c), Opq(("lib", ex.env.n)))])


def b_isnan(ex, n, args, st, fr):
    ex.ev(args[0], st, fr)
    ex.assumptions.add("no NaN values (reals are mathematical reals)")
    return z3.BoolVal(False)


BUILTINS = {
    "fabs": b_fabs, "sqrt": b_sqrt, "pow": b_pow, "abs": None,
    "printf": b_nop_int, "fprintf": b_nop_int, "fflush": b_nop_int, "fclose": b_nop_int, "gettimeofday": b_nop_int,
    "snprintf": b_snprintf, "sprintf": b_snprintf, "strlen": b_nop_int, "fputs": b_nop_int, "puts": b_nop_int,
    "memcpy": b_memcpy, "memset": b_memset, "fopen": b_ptr_opaque, "isnan": b_isnan,
    "strncpy": b_snprintf, "strcpy": b_snprintf, "exit": None,
}
BUILTINS = {k: v for k, v in BUILTINS.items() if v}


# ---- methods replaced by models (proved elsewhere or stated as assumption)
def m_throw(ex, f, this, argd, st, fr, n):
    ex.assumptions.add("throwError/throwWarning/throwInfo return the code they are given and change no solver state (contract proved in property C16)")
    v = list(argd.values())[0][1]
    return If(v == ex.P.enumname["SUCCESSFUL_RETURN"], z3.IntVal(ex.P.enumname["RET_ERROR_UNDEFINED"]), v) if False else v


def m_handler(ex, f, this, argd, st, fr, n):
    return Ptr([(T, Opq("globalMessageHandler"))])


def m_nop(ex, f, this, argd, st, fr, n):
    ex.assumptions.add("printing and time functions have no effect on program state")
    rt = f.ret
    if rt.base == "void" and not rt.ptr:
        return None
    return ex.fresh("lib", sort_of(rt))


def m_print_ok(ex, f, this, argd, st, fr, n):
    return z3.IntVal(0)


def m_time(ex, f, this, argd, st, fr, n):
    ex.nclock = getattr(ex, "nclock", -1) + 1
    return z3.Real("clock!%d" % ex.nclock)


METHODS = {
    "MessageHandling::throwError": m_throw, "MessageHandling::throwWarning": m_throw,
    "MessageHandling::throwInfo": m_throw, "getGlobalMessageHandler": m_handler,
    "MessageHandling::setErrorVisibilityStatus": m_nop, "MessageHandling::setWarningVisibilityStatus": m_nop,
    "MessageHandling::setInfoVisibilityStatus": m_nop, "MessageHandling::setErrorCount": m_nop,
    "myPrintf": m_nop, "getCPUtime": m_time,
}
