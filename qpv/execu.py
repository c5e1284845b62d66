"""Forward symbolic execution of clang AST functions into verification conditions."""
import os
import z3
from .frontend import Ty, node_type, parse_type, class_fields, find_method, is_derived, INTS, REALS
from .sym import *

MAXINLINE = 14


class Obl:
    __slots__ = ("name", "kind", "line", "nfacts", "pc", "goal", "extra", "islemma")

    def __init__(self, name, kind, line, nfacts, pc, goal):
        self.islemma = False
        self.name, self.kind, self.line, self.nfacts, self.pc, self.goal = name, kind, line, nfacts, pc, goal
        self.extra = []


class Frame:
    def __init__(self, func, this, depth):
        self.func, self.this, self.depth = func, this, depth   # this: (path, cls) or None
        self.names = {}     # local name -> path
        self.vty = {}       # path -> Ty
        self.refs = {}      # declid -> lvalue for reference variables
        self.args = {}
        self.returns = []   # (state, value, line)
        self.gotos = {}
        self.loops = []
        self.loopno = [0]
        self.looppath = []
        self.entry = None
        self.id = 0


class SV:
    """view of one state under one binding of this/params"""

    def __init__(self, st, this, args):
        self._st, self._this, self._args = st, this, args

    @property
    def this(self):
        return ObjView(self._st, self._this[0], self._this[1])

    def arg(self, name):
        if name not in self._args:
            raise Unsupported("contract names unknown parameter " + name)
        kind, v, ty = self._args[name]
        if kind == "val":
            return wrap(self._st, v, ty)
        if kind == "obj":
            return ObjView(self._st, v.path, v.cls)
        # reference to scalar: lvalue
        return wrap(self._st, _lv_load(self._st, v), ty)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        return self.arg(n)

    def argi(self, i):
        return self.arg(list(self._args)[i])


def _lv_load(st, lv):
    kind = lv[0]
    if kind == "loc":
        return st.load(lv[1], lv[2])
    if kind == "arr":
        return z3.Select(st.arr(lv[1], sort_of(lv[3])), lv[2])
    if kind == "multi":
        r = None
        for c, l in lv[1]:
            v = _lv_load(st, l)
            r = v if r is None else val_ite(c, v, r)
        return r
    raise Unsupported("load " + kind)


def local_view(st, p, ty):
    if st.env.is_class(ty):
        return ObjView(st, p, ty.base)
    if ty.arr:
        return PtrView(st, Ptr([(T, Arr(p, z3.IntVal(0)))]), Ty(ty.base, ty.ptr + 1))
    return wrap(st, st.load(p, ty), ty)


class Ctx:
    """what contracts see"""

    def __init__(self, ex, old, new, ret=None, frame=None, ent=None, loop=None):
        self.ex, self.old, self.new, self.ret, self.frame, self.ent, self.loop = ex, old, new, ret, frame, ent, loop
        self.E = ex.P.enumname
        self.P = ex.P

    def v(self, *names):
        """current value of a local variable (first existing name)"""
        for n in names:
            p = self.frame.names.get(n)
            if p is not None:
                return local_view(self.new._st, p, self.frame.vty[p])
            if n in self.frame.args:
                return self.new.arg(n)
        raise Unsupported("loop annotation names unknown local %s" % (names,))

    def ve(self, *names):
        for n in names:
            p = self.frame.names.get(n)
            if p is not None:
                return local_view(self.ent._st, p, self.frame.vty[p])
        raise Unsupported("loop annotation names unknown local %s" % (names,))

    def fresh(self, pv):
        """the pointer is null or a live allocation made by this call (proved for the function, known to its callers)"""
        if self.frame is None:
            return T
        out = []
        for cnd, t in pv.p.nonnull():
            out.append(Implies(cnd, And(t.off == 0, Not(self.new._st.dead.get(t.block, F))) if isinstance(t, Arr) and t.block in self.ex.newblocks else F))
        return And(out)

    @property
    def iv(self):
        p = self.loop.get("ivpath")
        if p is None:
            raise Unsupported("loop has no recognisable induction variable")
        return self.new._st.load(p, Ty("long"))

    @property
    def iv0(self):
        p = self.loop.get("ivpath")
        if p is None:
            raise Unsupported("loop has no recognisable induction variable")
        return self.ent._st.load(p, Ty("long"))


class Contract:
    def __init__(self, qual, sig=None, requires=None, ensures=None, modifies=None, result=None, setup=None,
                 trusted=None, pure=False, name=None, variant=None, assume=None, noinline=False, sanity=True,
                 frame=True, dyn=None, div0=True, bounds=True, post_lemmas=None, timeout=None, only_variant=False, keepnull=False, prune=False, only_call=False, auto=True, lemma=None, opaque_mul=False):
        self.qual, self.sig = qual, sig
        self.lemma = lemma
        self.requires = requires or (lambda c: [])
        self.ensures = ensures or (lambda c: [])
        self.modifies = (lambda c: []) if pure else (modifies or (lambda c: []))
        self.result = result
        self.setup = setup
        self.trusted = trusted      # reason string if contract is assumed, not proved
        self.name = name or qual
        self.variant = variant
        self.frame = frame
        self.dyn = dyn              # dynamic class of this
        self.div0 = div0
        self.bounds = bounds
        self.post_lemmas = post_lemmas
        self.timeout = timeout
        self.auto = auto                   # search for loop invariants beyond the annotated ones
        self.prune = prune                 # drop branches the preconditions exclude
        self.opaque_mul = opaque_mul       # products of reals are kept uninterpreted
        self.only_call = only_call         # used at call sites; proved through its variants
        self.only_variant = only_variant   # verify only; do not use at call sites
        self.used = 0

    @property
    def id(self):
        return self.qual + ("#" + self.sig if self.sig else "") + ("@" + self.variant if self.variant else "")


class Registry:
    def __init__(self):
        self.contracts = []
        self.loops = {}       # (qual, sig or None, path) -> fn
        self.ghosts = []      # (class, field): specification-only integer members, changed only where a contract says so

    def add(self, qual, **kw):
        c = Contract(qual, **kw)
        self.contracts.append(c)
        return c

    def lemma(self, name):
        """adds the proof of a registered lemma to the obligations"""
        from . import solve
        for n, needs, a, proof in solve.LEMMAS:
            if n == name and not any(c.id == "lemma:" + name for c in self.contracts):
                self.add("lemma:" + name, lemma=proof, only_variant=True)

    def loop(self, qual, path, fn=None, sig=None):
        if fn is None:
            def deco(f):
                self.loops[(qual, sig, path)] = f
                return f
            return deco
        self.loops[(qual, sig, path)] = fn

    def find(self, func):
        for c in self.contracts:
            if not c.only_variant and c.qual == func.qual and (c.sig is None or c.sig in func.node["type"]["qualType"]):
                return c
        return None

    def find_loop(self, func, path):
        fn = self._find_loop(func, path)
        if fn is None:
            pp = path.split(".")
            for (q, s, p), g in self.loops.items():
                if q == func.qual and "*" in p and (s is None or s in func.node["type"]["qualType"]):
                    w = p.split(".")
                    if len(w) == len(pp) and all(a in ("*", b) for a, b in zip(w, pp)):
                        return g
        return fn

    def _find_loop(self, func, path):
        for (q, s, p), fn in self.loops.items():
            if q == func.qual and p == path and (s is None or s in func.node["type"]["qualType"]):
                return fn
        return None


class Executor:
    def __init__(self, P, reg, opts=None):
        self.P, self.reg = P, reg
        self.env = Env(P)
        self.facts = []
        self.obls = []
        self.dry = 0
        self.frames = 0
        self.assumptions = set()
        self.used_contracts = set()
        self.inlined = set()
        self.covers = []        # (name, nfacts, pc)
        self.div0 = True
        self.bounds = True
        self.opts = opts or {}
        self.top = None
        self.line = 0
        self.loop_unbound = []
        self.houdini_solver_calls = 0
        self.autoinv = []
        self.nnew = 0

    # ------------------------------------------------------------ plumbing
    def fresh(self, name, sort):
        return self.env.fresh(name, sort)

    def fact(self, f, st=None):
        if st is not None:
            f = Implies(st.guard, f)
        if not z3.is_true(f):
            self.facts.append(f)

    def oblige(self, st, goal, name, kind="safety"):
        if self.dry or st is None:
            return
        g = z3.simplify(goal) if kind == "safety" else goal
        if z3.is_true(g):
            self.trivial = getattr(self, "trivial", 0) + 1
            return
        # flatten conjunctions
        if z3.is_and(goal):
            for i, ch in enumerate(goal.children()):
                self.oblige(st, ch, name + ".%d" % i, kind)
            return
        self.obls.append(Obl(name, kind, self.line, len(self.facts), st.pc, goal))

    def assume(self, st, f):
        """add f under st's path condition"""
        self.fact(f, st)

    # ------------------------------------------------------------ lvalues
    def ptr_targets(self, st, p, what):
        """non-null targets with obligations"""
        if self.bounds:
            self.oblige(st, Not(p.null), what + ":nonnull")
        nn = p.nonnull()
        if not nn:
            raise Unsupported("dereference of null pointer (%s)" % what)
        return nn

    def elem_lv(self, st, p, idx, ety, what):
        nn = self.ptr_targets(st, p, what)
        out = []
        for c, t in nn:
            if isinstance(t, Arr):
                off = t.off if (z3.is_int_value(idx) and idx.as_long() == 0) else (
                    idx if z3.is_int_value(t.off) and t.off.as_long() == 0 else t.off + idx)
                off = z3.simplify(off) if z3.is_int_value(off) else off
                if self.bounds:
                    live = Not(st.dead.get(t.block, F))
                    g = And(off >= 0, off < self.env.size(t.block), live)
                    self.oblige(st, Implies(c, g), what + ":bounds")
                out.append((c, ("arr", t.block, off, ety)))
            elif isinstance(t, Loc):
                self.oblige(st, Implies(c, idx == 0), what + ":bounds")
                out.append((c, ("loc", t.path, t.ty)))
            elif isinstance(t, ObjT):
                self.oblige(st, Implies(c, idx == 0), what + ":bounds")
                out.append((c, ("obj", t.path, t.cls)))
            else:
                raise Unsupported("dereference of opaque pointer " + str(t.name))
        if len(out) == 1:
            return out[0][1]
        return ("multi", out)

    def lv_load(self, st, lv):
        if lv[0] == "obj":
            return Obj([(T, lv[1])], lv[2])
        if lv[0] == "multi" and lv[1][0][1][0] == "obj":
            return Obj([(c, l[1]) for c, l in lv[1]], lv[1][0][1][2])
        return _lv_load(st, lv)

    def lv_store(self, st, lv, v, cond=T):
        k = lv[0]
        if k == "loc":
            ty = lv[2]
            v = self.convert(v, ty)
            if not z3.is_true(cond):
                v = val_ite(cond, v, st.load(lv[1], ty))
            st.store(lv[1], v)
        elif k == "arr":
            srt = sort_of(lv[3])
            a = st.arr(lv[1], srt)
            v = self.convert(v, lv[3])
            if not z3.is_true(cond):
                v = If(cond, v, z3.Select(a, lv[2]))
            st.arrs[lv[1]] = z3.Store(a, lv[2], v)
        elif k == "multi":
            for c, l in lv[1]:
                self.lv_store(st, l, v, And(cond, c))
        else:
            raise Unsupported("store to " + k)

    def convert(self, v, ty):
        if isinstance(v, Ptr) or v is None:
            return v
        if isinstance(v, Obj):
            return v
        if ty.ptr:
            if z3.is_int_value(v) and v.as_long() == 0:
                return NULL
            raise Unsupported("int to pointer")
        s = sort_of(ty)
        if v.sort() == s:
            return v
        if s == Real:
            return to_real(v)
        if s == Int:
            v = to_num(v)
            if v.sort() == Real:
                return If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            return v
        if s == Bool:
            return to_bool(v)
        return v

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, fr):
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression " + k)
        return m(n, st, fr)

    def inner(self, n, i=0):
        return [x for x in n.get("inner", []) if x][i]

    def lv(self, n, st, fr):
        """lvalue of expression"""
        k = n["kind"]
        if k in ("ParenExpr", "ConstantExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"):
            return self.lv(self.inner(n), st, fr)
        if k == "DeclRefExpr":
            rd = n["referencedDecl"]
            did = rd["id"]
            if did in fr.refs:
                return fr.refs[did]
            ty = node_type(rd)
            if rd["kind"] in ("VarDecl", "ParmVarDecl"):
                p = fr.names.get(rd["name"]) if False else fr.declpath.get(did)
                if p is None:
                    if did in self.P.globals:
                        p = ("::", rd["name"])
                        g = self.P.globals[did]
                        fr.vty[p] = ty
                        if self.env.is_class(ty):
                            return ("obj", p, ty.base)
                        ini = [x for x in g.get("inner", []) if not x.get("kind", "").endswith("Comment")]
                        q = (g.get("type") or {}).get("qualType", "")
                        if ini and q.startswith("const") and not ty.ptr and not ty.arr and p not in self.env.mem:
                            self.env.mem[p] = self.convert(self.ev(ini[0], st, fr), ty)
                        return ("loc", p, ty)
                    p = ("::", rd["name"])
                    if self.env.is_class(ty):
                        return ("obj", p, ty.base)
                    return ("loc", p, ty)
                if self.env.is_class(ty):
                    return ("obj", p, self.env.dyn.get(p, ty.base))
                return ("loc", p, ty)
            raise Unsupported("declref " + rd["kind"])
        if k == "MemberExpr":
            base = self.inner(n)
            if n.get("isArrow"):
                p = self.ev(base, st, fr)
                nn = self.ptr_targets(st, p, "member " + n["name"])
                objs = []
                for c, t in nn:
                    if not isinstance(t, ObjT):
                        raise Unsupported("member access via non-object pointer")
                    objs.append((c, t.path, t.cls))
            else:
                b = self.lv(base, st, fr) if base.get("valueCategory") != "prvalue" else None
                if b is None:
                    o = self.ev(base, st, fr)
                    objs = [(c, p, o.cls) for c, p in o.alts]
                elif b[0] == "obj":
                    objs = [(T, b[1], b[2])]
                elif b[0] == "multi":
                    objs = [(c, l[1], l[2]) for c, l in b[1]]
                else:
                    raise Unsupported("member of non-object")
            ty = node_type(n)
            fd = self.P.decl.get(n.get("referencedMemberDecl"))
            if fd is not None and fd.get("kind") == "FieldDecl":
                ty = node_type(fd)
            out = []
            for c, p, cls in objs:
                fp = p + (n["name"],)
                if self.env.is_class(ty):
                    out.append((c, ("obj", fp, ty.base)))
                else:
                    out.append((c, ("loc", fp, ty)))
            return out[0][1] if len(out) == 1 else ("multi", out)
        if k == "ArraySubscriptExpr":
            b, i = n["inner"][0], n["inner"][1]
            p = self.ev(b, st, fr)
            idx = to_num(self.ev(i, st, fr))
            return self.elem_lv(st, p, idx, node_type(n), "index@%s" % (n.get("_bl")))
        if k == "UnaryOperator" and n["opcode"] == "*":
            p = self.ev(self.inner(n), st, fr)
            return self.elem_lv(st, p, z3.IntVal(0), node_type(n), "deref@%s" % (n.get("_bl")))
        if k == "ImplicitCastExpr" and n["castKind"] in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase"):
            return self.lv(self.inner(n), st, fr)
        if k in ("CStyleCastExpr", "CXXStaticCastExpr", "CXXConstCastExpr") and n.get("castKind") == "NoOp":
            return self.lv(self.inner(n), st, fr)
        if k in ("BinaryOperator", "CompoundAssignOperator") and n["opcode"].endswith("="):
            self.ev(n, st, fr)
            return self.lv(n["inner"][0], st, fr)
        if k == "UnaryOperator" and n["opcode"] in ("++", "--"):
            self.ev(n, st, fr)
            return self.lv(self.inner(n), st, fr)
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            v = self.ev(n, st, fr)
            if isinstance(v, Obj):
                out = [(c, ("obj", p, v.cls)) for c, p in v.alts]
                return out[0][1] if len(out) == 1 else ("multi", out)
            if isinstance(v, tuple):
                return v
            raise Unsupported("call as lvalue")
        if k == "CXXConstructExpr" or k == "CXXTemporaryObjectExpr":
            o = self.ev(n, st, fr)
            return ("obj", o.path, o.cls)
        if k == "ConditionalOperator":
            c = to_bool(self.ev(n["inner"][0], st, fr))
            a = self.lv(n["inner"][1], st, fr)
            b = self.lv(n["inner"][2], st, fr)
            return ("multi", [(c, a), (Not(c), b)])
        raise Unsupported("lvalue " + k)

    def e_ParenExpr(self, n, st, fr):
        return self.ev(self.inner(n), st, fr)
    e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ParenExpr

    def e_ConstantExpr(self, n, st, fr):
        return self.ev(self.inner(n), st, fr)

    def e_IntegerLiteral(self, n, st, fr):
        return z3.IntVal(int(n["value"]))

    def e_CharacterLiteral(self, n, st, fr):
        return z3.IntVal(int(n["value"]))

    def e_CXXBoolLiteralExpr(self, n, st, fr):
        return z3.BoolVal(bool(n["value"]))

    def e_FloatingLiteral(self, n, st, fr):
        from fractions import Fraction
        # the shortest decimal that denotes the double (clang prints 17 digits)
        return z3.RealVal(str(Fraction(repr(float(n["value"])))))

    def e_StringLiteral(self, n, st, fr):
        try:
            import ast
            txt = ast.literal_eval(n["value"])
        except Exception:
            txt = ""
        b = ("str<%s>" % n["value"], "*")
        if b not in self.env.arrs:
            a = z3.K(Int, z3.IntVal(0))
            for i, ch in enumerate(txt[:16]):
                a = z3.Store(a, i, ord(ch))
            self.env.sizes[b] = z3.IntVal(len(txt) + 1)
            self.env.arrs[b] = a
        return Ptr([(T, Arr(b, z3.IntVal(0)))])

    def e_CXXNullPtrLiteralExpr(self, n, st, fr):
        return NULL
    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CXXThisExpr(self, n, st, fr):
        return Ptr([(T, ObjT(fr.this[0], fr.this[1]))])

    def e_DeclRefExpr(self, n, st, fr):
        rd = n["referencedDecl"]
        if rd["kind"] == "EnumConstantDecl":
            return z3.IntVal(self.P.enumval[rd["id"]])
        if rd["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return ("fun", rd)
        return self.lv_load(st, self.lv(n, st, fr))

    def e_MemberExpr(self, n, st, fr):
        return self.lv_load(st, self.lv(n, st, fr))

    def e_ArraySubscriptExpr(self, n, st, fr):
        return self.lv_load(st, self.lv(n, st, fr))

    def e_UnaryExprOrTypeTraitExpr(self, n, st, fr):
        t = parse_type((n.get("argType") or {}).get("qualType") or node_type(self.inner(n)).__repr__())
        sz = {"double": 8, "long": 8, "unsigned long": 8, "int": 4, "char": 1, "unsigned int": 4}.get(t.base)
        if t.ptr:
            sz = 8
        if sz is None:
            raise Unsupported("sizeof " + str(t))
        return z3.IntVal(sz)

    def e_ImplicitCastExpr(self, n, st, fr):
        ck = n["castKind"]
        x = self.inner(n)
        if ck == "LValueToRValue":
            v = self.lv_load(st, self.lv(x, st, fr))
            return v
        if ck == "ArrayToPointerDecay":
            y = x
            while y["kind"] == "ParenExpr":
                y = self.inner(y)
            if y["kind"] == "StringLiteral":
                return self.e_StringLiteral(y, st, fr)
            if y["kind"] == "PredefinedExpr":
                return Ptr([(T, Opq(("str", "fn")))])
            l = self.lv(x, st, fr)
            ty = node_type(x)
            if l[0] == "loc":
                if ty.ptr or ty.base not in INTS | REALS and ty.base not in self.P.enum_of:
                    return Ptr([(T, Opq(l[1]))])
                if l[1] not in self.env.sizes and ty.arr:
                    self.env.sizes[l[1]] = z3.IntVal(ty.arr[0])
                return Ptr([(T, Arr(l[1], z3.IntVal(0)))])
            raise Unsupported("array decay")
        if ck == "FunctionToPointerDecay":
            return self.ev(x, st, fr)
        if ck == "NullToPointer":
            return NULL
        if ck in ("NoOp", "BitCast", "DerivedToBase", "UncheckedDerivedToBase", "UserDefinedConversion", "ConstructorConversion"):
            return self.ev(x, st, fr)
        if ck == "IntegralCast":
            v = self.ev(x, st, fr)
            v = to_num(v)
            ty = node_type(n)
            if ty.base.startswith("unsigned") and not node_type(x).base.startswith("unsigned"):
                if not z3.is_int_value(v):
                    self.oblige(st, v >= 0, "cast-to-unsigned@%s" % n.get("_bl"))
            return v
        if ck == "IntegralToFloating":
            return to_real(self.ev(x, st, fr))
        if ck == "FloatingToIntegral":
            return self.convert(self.ev(x, st, fr), Ty("long"))
        if ck == "FloatingCast":
            return self.ev(x, st, fr)
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            return to_bool(self.ev(x, st, fr))
        if ck == "ToVoid":
            self.ev(x, st, fr)
            return None
        raise Unsupported("cast " + ck)
    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr
    e_CXXReinterpretCastExpr = e_ImplicitCastExpr

    def e_UnaryOperator(self, n, st, fr):
        op = n["opcode"]
        x = self.inner(n)
        if op in ("++", "--"):
            l = self.lv(x, st, fr)
            v = self.lv_load(st, l)
            if isinstance(v, Ptr):
                nv = self.ptr_add(v, z3.IntVal(1 if op == "++" else -1))
            else:
                nv = v + 1 if op == "++" else v - 1
                nv = z3.simplify(nv) if z3.is_int_value(v) else nv
            self.lv_store(st, l, nv)
            return v if n.get("isPostfix") else nv
        if op == "*":
            return self.lv_load(st, self.lv(n, st, fr))
        if op == "&":
            if x["kind"] == "DeclRefExpr" and x["referencedDecl"]["kind"] in ("FunctionDecl", "CXXMethodDecl"):
                return Ptr([(T, Opq(x["referencedDecl"]["name"]))])
            y = x
            while y["kind"] == "ParenExpr":
                y = self.inner(y)
            if y["kind"] == "ArraySubscriptExpr" and not self.env.is_class(node_type(y)):
                p = self.ev(y["inner"][0], st, fr)
                idx = to_num(self.ev(y["inner"][1], st, fr))
                if isinstance(p, Ptr) and all(isinstance(t, (Arr, type(None))) for c, t in p.nonnull()):
                    return self.ptr_add(p, idx)         # address only (one past the end is fine); accesses through it are checked
                return self.lv_addr(self.elem_lv(st, p, idx, node_type(y), "index@%s" % (y.get("_bl"))))
            l = self.lv(x, st, fr)
            return self.lv_addr(l)
        v = self.ev(x, st, fr)
        if op == "-":
            v = to_num(v)
            return z3.simplify(-v) if z3.is_int_value(v) or z3.is_rational_value(v) else -v
        if op == "+":
            return to_num(v)
        if op == "!":
            return Not(to_bool(v))
        raise Unsupported("unary " + op)

    def lv_addr(self, l):
        if l[0] == "obj":
            return Ptr([(T, ObjT(l[1], l[2]))])
        if l[0] == "arr":
            return Ptr([(T, Arr(l[1], l[2]))])
        if l[0] == "loc":
            return Ptr([(T, Loc(l[1], l[2]))])
        if l[0] == "multi":
            out = []
            for c, x in l[1]:
                for d, t in self.lv_addr(x).alts:
                    out.append((And(c, d), t))
            return Ptr(out)
        raise Unsupported("address of")

    def ptr_add(self, p, k):
        out = []
        for c, t in p.alts:
            if isinstance(t, Arr):
                o = k if z3.is_int_value(t.off) and t.off.as_long() == 0 else t.off + k
                out.append((c, Arr(t.block, o)))
            elif t is None:
                out.append((c, None))
            else:
                if z3.is_int_value(k) and k.as_long() == 0:
                    out.append((c, t))
                else:
                    raise Unsupported("pointer arithmetic on non-array")
        return Ptr(out)

    def e_BinaryOperator(self, n, st, fr):
        op = n["opcode"]
        a, b = n["inner"][0], n["inner"][1]
        if op == "=":
            # rhs first then lhs address (no interfering side effects in this code base)
            v = self.ev(b, st, fr)
            l = self.lv(a, st, fr)
            if isinstance(v, tuple) and v[0] == "str":
                v = Ptr([(T, Opq(v))])
            if isinstance(v, Obj):
                self.copy_obj(st, l, v)
                return v
            self.lv_store(st, l, v)
            return self.lv_load(st, l)
        if op == ",":
            self.ev(a, st, fr)
            return self.ev(b, st, fr)
        if op in ("&&", "||"):
            x = to_bool(self.ev(a, st, fr))
            s2 = st.with_pc(x if op == "&&" else Not(x))
            y = to_bool(self.ev(b, s2, fr))
            self.absorb(st, s2, x if op == "&&" else Not(x))
            return And(x, y) if op == "&&" else Or(x, y)
        va = self.ev(a, st, fr)
        vb = self.ev(b, st, fr)
        return self.binop(op, va, vb, st, n)

    def absorb(self, st, s2, cond):
        """after evaluating a conditional sub-expression in s2, fold its effects back into st"""
        rest = s2.pc[len(st.pc) + (0 if z3.is_true(cond) else 1):]
        changed = [k for k, v in s2.mem.items() if k not in st.mem or not val_same(v, st.mem[k])]
        for k in changed:
            old = st.mem.get(k, self.env.mem.get(k))
            st.mem[k] = s2.mem[k] if old is None else val_ite(cond, s2.mem[k], old)
        for k, v in s2.arrs.items():
            o = st.arrs.get(k, self.env.arrs.get(k))
            if o is None or not v.eq(o):
                st.arrs[k] = v if o is None else If(cond, v, o)
        for k, v in s2.dead.items():
            if k not in st.dead or not v.eq(st.dead[k]):
                st.dead[k] = If(cond, v, st.dead.get(k, F))
        if rest:
            st.pc = st.pc + (Implies(cond, And(list(rest))),)

    def binop(self, op, va, vb, st, n):
        if isinstance(va, Ptr) or isinstance(vb, Ptr):
            if op in ("==", "!="):
                if not isinstance(va, Ptr):
                    va = NULL
                if not isinstance(vb, Ptr):
                    vb = NULL
                e = ptr_eq(va, vb)
                return e if op == "==" else Not(e)
            if op == "+":
                return self.ptr_add(va, to_num(vb)) if isinstance(va, Ptr) else self.ptr_add(vb, to_num(va))
            if op == "-" and not isinstance(vb, Ptr):
                return self.ptr_add(va, -to_num(vb))
            raise Unsupported("pointer op " + op)
        if va is None or vb is None or isinstance(va, (tuple, Obj)) or isinstance(vb, (tuple, Obj)):
            raise Unsupported("binary op on non-scalar")
        va, vb = to_num(va), to_num(vb)
        if va.sort() != vb.sort():
            va, vb = to_real(va), to_real(vb)
        const = lambda v: z3.is_int_value(v) or z3.is_rational_value(v)
        if op == "+":
            r = va + vb
        elif op == "-":
            r = va - vb
        elif op == "*":
            r = imul(va, vb) if va.sort() == Int else rmul(va, vb)
        elif op == "/":
            if va.sort() == Real:
                if self.div0:
                    self.oblige(st, vb != 0, "division-by-zero@%s" % n.get("_bl"))
                r = va / vb
            else:
                self.oblige(st, vb != 0, "division-by-zero@%s" % n.get("_bl"))
                if const(vb) and vb.as_long() > 0:
                    r = If(va >= 0, va / vb, -((-va) / vb))
                else:
                    q = z3.If(vb > 0, va / vb, -(va / (-vb)))
                    qn = z3.If(vb > 0, -((-va) / vb), (-va) / (-vb))
                    r = If(va >= 0, q, qn)
        elif op == "%":
            self.oblige(st, vb != 0, "modulo-by-zero@%s" % n.get("_bl"))
            r = If(va >= 0, va % vb, -((-va) % vb))
        elif op == "<":
            return va < vb
        elif op == "<=":
            return va <= vb
        elif op == ">":
            return va > vb
        elif op == ">=":
            return va >= vb
        elif op == "==":
            return va == vb
        elif op == "!=":
            return va != vb
        else:
            raise Unsupported("binary " + op)
        if const(va) and const(vb):
            r = z3.simplify(r)
        return r

    def e_CompoundAssignOperator(self, n, st, fr):
        op = n["opcode"][:-1]
        a, b = n["inner"][0], n["inner"][1]
        vb = self.ev(b, st, fr)
        l = self.lv(a, st, fr)
        va = self.lv_load(st, l)
        r = self.binop(op, va, vb, st, n)
        self.lv_store(st, l, r)
        return self.lv_load(st, l)

    def e_ConditionalOperator(self, n, st, fr):
        c = to_bool(self.ev(n["inner"][0], st, fr))
        s1, s2 = st.with_pc(c), st.with_pc(Not(c))
        a = self.ev(n["inner"][1], s1, fr)
        b = self.ev(n["inner"][2], s2, fr)
        m = merge(s1, s2)
        st.mem, st.arrs, st.dead, st.pc = m.mem, m.arrs, m.dead, m.pc
        if isinstance(a, Obj):
            return Obj([(And(c, d), p) for d, p in a.alts] + [(And(Not(c), d), p) for d, p in b.alts], a.cls)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            a = a if isinstance(a, Ptr) else NULL
            b = b if isinstance(b, Ptr) else NULL
            return ptr_ite(c, a, b)
        return val_ite(c, a, b)

    def e_CXXDefaultArgExpr(self, n, st, fr):
        raise Unsupported("default argument outside call")

    def e_InitListExpr(self, n, st, fr):
        raise Unsupported("init list")

    def e_ImplicitValueInitExpr(self, n, st, fr):
        ty = node_type(n)
        return z3.IntVal(0) if sort_of(ty) == Int else z3.RealVal(0)

    def e_PredefinedExpr(self, n, st, fr):
        return ("str", "fn")

    # ------------------------------------------------------------ new/delete
    def e_CXXNewExpr(self, n, st, fr):
        ty = node_type(n).deref()
        self.nnew += 1
        if n.get("isArray"):
            cnt = to_num(self.ev(self.inner(n), st, fr))
            if ty.ptr or ty.base in self.P.classes:
                raise Unsupported("new[] of " + str(ty))
            block = ("new%d" % self.nnew, "*")
            self.oblige(st, cnt >= 0, "new-size-nonneg@%s" % n.get("_bl"))
            # size is fixed by the (path-guarded) definition
            s = self.fresh("newsize", Int)
            self.fact(And(s >= 0, Implies(cnt >= 0, s == cnt)))
            self.env.sizes[block] = s
            st.arrs[block] = self.fresh("newarr", z3.ArraySort(Int, sort_of(ty)))
            st.dead[block] = F
            self.newblocks.add(block)
            return Ptr([(T, Arr(block, z3.IntVal(0)))])
        if ty.base in self.P.classes and ty.ptr == 0:
            path = ("new%d" % self.nnew,)
            self.newblocks.add(path)
            st.dead[path] = F
            x = next((y for y in n.get("inner", []) if y.get("kind") == "CXXConstructExpr"), None)
            self.havoc_new_obj(st, path, ty.base)
            if x is not None:
                self.construct(x, st, fr, path, ty.base)
            return Ptr([(T, ObjT(path, ty.base))])
        raise Unsupported("new " + str(ty))

    def havoc_new_obj(self, st, path, cls):
        for f, ty in class_fields(self.P, cls):
            p = path + (f,)
            if self.env.is_class(ty):
                self.havoc_new_obj(st, p, ty.base)
            elif ty.arr:
                continue
            elif ty.ptr or ty.fn:
                u = self.fresh("uninitptr", Bool)
                st.mem[p] = Ptr([(T, Opq(("uninit",) + p))])
            else:
                st.mem[p] = self.fresh("uninit." + f, sort_of(ty))

    def e_CXXDeleteExpr(self, n, st, fr):
        p = self.ev(self.inner(n), st, fr)
        for c, t in p.nonnull():
            if isinstance(t, Arr):
                if self.bounds:
                    self.oblige(st, Implies(c, And(t.off == 0, Not(st.dead.get(t.block, F)))),
                                "delete@%s:valid" % n.get("_bl"))
                st.dead[t.block] = Or(st.dead.get(t.block, F), c)
            elif isinstance(t, ObjT):
                if self.bounds:
                    self.oblige(st, Implies(c, Not(st.dead.get(t.path, F))), "delete@%s:valid" % n.get("_bl"))
                st.dead[t.path] = Or(st.dead.get(t.path, F), c)
                self.assumptions.add("destructors run by delete of an object are not modelled beyond marking it dead")
            elif isinstance(t, Opq):
                if self.bounds:
                    self.oblige(st, Not(c), "delete@%s:initialised" % n.get("_bl"))
        return None

    # ------------------------------------------------------------ objects
    def copy_obj(self, st, l, v):
        raise Unsupported("implicit object assignment")

    def memberwise_copy(self, st, dst, src, cls):
        for f, ty in class_fields(self.P, cls):
            if self.env.is_class(ty):
                self.memberwise_copy(st, dst + (f,), src + (f,), ty.base)
            elif ty.arr:
                b1, b2 = dst + (f,), src + (f,)
                st.arrs[b1] = st.arr(b2, sort_of(Ty(ty.base)))
                self.env.sizes.setdefault(b1, z3.IntVal(ty.arr[0]))
            else:
                st.mem[dst + (f,)] = st.load(src + (f,), ty)

    def e_CXXConstructExpr(self, n, st, fr):
        cls = node_type(n).base
        self.nnew += 1
        path = ("%", "tmp%d" % self.nnew)
        self.havoc_new_obj(st, path, cls)
        self.construct(n, st, fr, path, cls)
        return Obj([(T, path)], cls)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, n, st, fr, path, cls):
        """run constructor named by CXXConstructExpr n on path"""
        sig = (n.get("ctorType") or {}).get("qualType")
        args = [x for x in n.get("inner", []) if x]
        cand = [f for f in self.P.by_qual.get(cls + "::" + cls.split("::")[-1], []) if f.kind == "CXXConstructorDecl"]
        f = None
        for g in cand:
            if g.node["type"]["qualType"] == sig:
                f = g
                if g.body is not None:
                    break
        if f is None or (f.body is None):
            # implicit
            if args and len(args) == 1:
                o = self.ev(args[0], st, fr)
                if isinstance(o, Obj):
                    self.memberwise_copy(st, path, o.path, cls)
                    return
            if not args:
                if cls in self.P.classes and (f is None or f.node.get("isImplicit")):
                    for fn, ty in class_fields(self.P, cls):
                        if self.env.is_class(ty):
                            self.default_construct(st, path + (fn,), ty.base, fr)
                    return
            raise Unsupported("constructor %s %s" % (cls, sig))
        self.call(f, (path, cls), args, st, fr, n)

    def default_construct(self, st, path, cls, fr):
        self.construct({"ctorType": {"qualType": "void ()"}, "inner": [], "kind": "CXXConstructExpr"}, st, fr, path, cls)

    # ------------------------------------------------------------ calls
    def e_CallExpr(self, n, st, fr):
        cal = n["inner"][0]
        args = n["inner"][1:]
        x = cal
        while x["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            x = self.inner(x)
        if x["kind"] != "DeclRefExpr" or x["referencedDecl"]["kind"] not in ("FunctionDecl", "CXXMethodDecl"):
            raise Unsupported("indirect call")
        rd = x["referencedDecl"]
        m = self.P.decl_mangled.get(rd["id"])
        name = rd["name"]
        from . import builtins as B
        bi = B.BUILTINS.get(name)
        f = self.P.funcs.get(m) if m else None
        if bi is not None and (f is None or f.body is None or "repo" not in (f.file or "")):
            return bi(self, n, args, st, fr)
        if f is None:
            raise Unsupported("call to unknown function " + name)
        if x["referencedDecl"]["kind"] == "CXXMethodDecl" and not f.static:
            raise Unsupported("method pointer")
        return self.call(f, None, args, st, fr, n)

    def e_CXXMemberCallExpr(self, n, st, fr):
        me = n["inner"][0]
        while me["kind"] == "ParenExpr":
            me = self.inner(me)
        if me["kind"] != "MemberExpr":
            raise Unsupported("member call via " + me["kind"])
        args = n["inner"][1:]
        base = self.inner(me)
        m = self.P.decl_mangled.get(me.get("referencedMemberDecl"))
        f = self.P.funcs.get(m)
        if f is None:
            raise Unsupported("unknown method " + me["name"])
        # qualified call Base::f() -> non-virtual; detectable through cast of implicit this
        if me.get("isArrow"):
            p = self.ev(base, st, fr)
            nn = self.ptr_targets(st, p, "call " + me["name"])
            objs = []
            for c, t in nn:
                if isinstance(t, Opq):
                    objs.append((c, ("opq",) + (t.name if isinstance(t.name, tuple) else (t.name,)), f.cls))
                    continue
                if not isinstance(t, ObjT):
                    raise Unsupported("call on non-object")
                objs.append((c, t.path, t.cls))
        else:
            o = self.lv_load(st, self.lv(base, st, fr)) if base.get("valueCategory") != "prvalue" else self.ev(base, st, fr)
            objs = [(c, p, o.cls) for c, p in o.alts]
        qualified = self._qualified(base, f)
        if len(objs) == 1:
            return self.mcall(f, objs[0], args, st, fr, n, qualified)
        # several possible receivers: split
        res, outst = None, None
        for c, p, cls in objs:
            s = st.with_pc(c)
            v = self.mcall(f, (T, p, cls), args, s, fr, n, qualified)
            if outst is None:
                res, outst = v, s
            else:
                outst = merge(s, outst)
                if v is not None:
                    res = val_ite(c, v, res) if not isinstance(v, Obj) else Obj([(And(c, d), q) for d, q in v.alts] + res.alts, v.cls)
        st.mem, st.arrs, st.dead, st.pc = outst.mem, outst.arrs, outst.dead, outst.pc
        return res

    def _qualified(self, base, f):
        # clang marks Base::f() on implicit this with UncheckedDerivedToBase cast of `this`
        x = base
        while x["kind"] in ("ParenExpr",):
            x = self.inner(x)
        return x["kind"] == "ImplicitCastExpr" and x.get("castKind") == "UncheckedDerivedToBase" and \
            self.inner(x)["kind"] == "CXXThisExpr"

    def mcall(self, f, obj, args, st, fr, n, qualified):
        c, path, cls = obj
        g = f
        if f.virtual and not qualified:
            if cls != f.cls and cls in self.P.classes:
                h = find_method(self.P, cls, f.name, f.node["type"]["qualType"])
                if h is not None:
                    g = self.P.funcs.get(h.key, h)
        return self.call(g, (path, cls), args, st, fr, n)

    def e_CXXOperatorCallExpr(self, n, st, fr):
        x = n["inner"][0]
        while x["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            x = self.inner(x)
        rd = x["referencedDecl"]
        m = self.P.decl_mangled.get(rd["id"])
        f = self.P.funcs.get(m)
        o = self.lv_load(st, self.lv(n["inner"][1], st, fr))
        if not isinstance(o, Obj):
            raise Unsupported("operator on non-object")
        if f is None or (f.body is None and f.node.get("isImplicit")) or (f.body is None and rd["name"] == "operator="):
            if rd["name"] == "operator=":
                v = self.ev(n["inner"][2], st, fr)
                self.memberwise_copy(st, o.path, v.path, o.cls)
                return o
            raise Unsupported("operator " + rd["name"])
        return self.call(f, (o.path, o.cls), n["inner"][2:], st, fr, n)

    def bind_args(self, f, args, st, fr, n):
        """evaluate argument expressions against parameter types: list of (kind, value, ty)"""
        out = []
        for i, pd in enumerate(f.params):
            ty = node_type(pd)
            a = args[i] if i < len(args) else None
            while a is not None and a["kind"] in ("ExprWithCleanups",):
                a = self.inner(a)
            if a is None or a["kind"] == "CXXDefaultArgExpr":
                a = self.P.defaults.get(f.key, {}).get(i)
                if a is None:
                    inn = args[i].get("inner") if i < len(args) else None
                    a = inn[0] if inn else None
                if a is None:
                    raise Unsupported("default argument of " + f.qual)
            if ty.ref:
                if self.env.is_class(ty.noref()):
                    v = self.ev(a, st, fr)
                    if not isinstance(v, Obj):
                        raise Unsupported("class reference argument")
                    out.append(("obj", v, ty.noref()))
                else:
                    try:
                        l = self.lv(a, st, fr)
                    except Unsupported:
                        v = self.ev(a, st, fr)
                        self.nnew += 1
                        p = ("%", "tmp%d" % self.nnew)
                        st.mem[p] = v
                        l = ("loc", p, ty.noref())
                    out.append(("ref", l, ty.noref()))
            else:
                v = self.ev(a, st, fr)
                if isinstance(v, tuple) and v and v[0] == "str":
                    v = Ptr([(T, Opq(v))])
                if isinstance(v, Obj):
                    out.append(("obj", v, ty))
                else:
                    out.append(("val", self.convert(v, ty), ty))
        return out

    def call(self, f, this, args, st, fr, n):
        bound = self.bind_args(f, args, st, fr, n)
        return self.call_bound(f, this, bound, st, fr, n)

    def call_bound(self, f, this, bound, st, fr, n):
        con = self.reg.find(f)
        argd = {}
        for i, pd in enumerate(f.params):
            argd[pd.get("name") or ("$%d" % i)] = bound[i]
        line = n.get("_bl") or n.get("_line") or self.line
        if con is not None and not (self.top is not None and self.top is con and fr.depth < 0):
            return self.apply_contract(con, f, this, argd, st, line)
        from . import builtins as B
        sp = B.METHODS.get(f.qual)
        if sp is not None:
            return sp(self, f, this, argd, st, fr, n)
        if f.body is None:
            raise Unsupported("no body and no contract for " + f.qual)
        if fr.depth + 1 > MAXINLINE:
            raise Unsupported("inlining depth at " + f.qual)
        x = fr
        while x is not None:
            if x.func is f:
                raise Unsupported("recursive call without contract: " + f.qual)
            x = getattr(x, "parent", None)
        self.inlined.add(f.qual)
        nf = self.make_frame(f, this, argd, st, fr.depth + 1)
        nf.parent = fr
        saved = self.line
        self.run_body(nf, st.copy(), f)
        self.line = saved
        # merge returns
        out, val = None, None
        for s, v, ln in nf.returns:
            if out is None:
                out, val = s, v
            else:
                k = 0
                while k < len(s.pc) and k < len(out.pc) and s.pc[k] is out.pc[k]:
                    k += 1
                ra = And(list(s.pc[k:]))
                if v is not None and val is not None:
                    if isinstance(v, Obj):
                        if not (isinstance(val, Obj) and len(v.alts) == 1 and val.alts[0][1] == v.alts[0][1]):
                            val = Obj([(And(ra, d), q) for d, q in v.alts] + [(And(Not(ra), d), q) for d, q in val.alts], v.cls)
                    elif isinstance(v, tuple):
                        val = ("multi", [(ra, v), (Not(ra), val)]) if v != val else val
                    elif isinstance(v, Ptr) or isinstance(val, Ptr):
                        val = ptr_ite(ra, v, val)
                    else:
                        val = val_ite(ra, v, val)
                out = merge(s, out)
        if out is None:
            raise Unsupported("inlined function never returns: " + f.qual)
        st.mem, st.arrs, st.dead = out.mem, out.arrs, out.dead
        st.pc = out.pc
        return val

    def apply_contract(self, con, f, this, argd, st, line):
        con.used += 1
        self.used_contracts.add(con.id)
        pre = st.copy()
        c = Ctx(self, SV(pre, this, argd), SV(pre, this, argd))
        self.line = line
        for i, (nm, g) in enumerate(con.requires(c)):
            self.oblige(st, g, "call %s:pre:%s" % (f.qual, nm), "pre")
        for item in con.modifies(c):
            self.havoc_item(st, item)
        ret = None
        rty = f.ret
        if con.result is not None:
            ret = con.result(Ctx(self, SV(pre, this, argd), SV(st, this, argd)))
            if isinstance(ret, PtrView):
                ret = ret.p
            elif isinstance(ret, ObjView):
                ret = Obj([(T, ret._path)], ret._cls)
        elif rty.base == "void" and not rty.ptr:
            ret = None
        elif rty.ptr or rty.ref or self.env.is_class(rty):
            if f.kind == "CXXConstructorDecl":
                ret = None
            else:
                raise Unsupported("contract of %s returns %s without result()" % (f.qual, rty))
        else:
            ret = self.fresh("ret<%s>" % f.qual, sort_of(rty))
        c = Ctx(self, SV(pre, this, argd), SV(st, this, argd), wrap(st, ret, rty) if not isinstance(ret, Obj) else ret)
        for nm, g in con.ensures(c):
            self.assume(st, g)
        return ret

    def havoc_item(self, st, item):
        k = item[0]
        if k == "field":
            _, path, ty = item
            if ty.ptr:
                raise Unsupported("contract modifies pointer field " + str(path))
            st.mem[path] = self.fresh(self.env.pname(path), sort_of(ty))
            if ty.base.startswith("unsigned"):
                self.fact(st.mem[path] >= 0)
        elif k == "arr":
            _, block, srt, nulls = item
            st.arrs[block] = self.fresh("arr<%s>" % self.env.pname(block), z3.ArraySort(Int, srt))
        elif k == "newptr":
            # the callee replaces this pointer by null or a fresh allocation of its own
            _, path, ty = item
            for cnd, t in st.load(path, ty).nonnull():
                if isinstance(t, Arr):
                    st.dead[t.block] = Or(st.dead.get(t.block, F), cnd)
            self.nnew += 1
            block = ("new%d" % self.nnew, "*")
            self.env.sizes[block] = self.fresh("newsize", Int)
            self.fact(self.env.sizes[block] >= 0)
            st.arrs[block] = self.fresh("newarr", z3.ArraySort(Int, sort_of(ty.deref())))
            st.dead[block] = F
            self.newblocks.add(block)
            isnull = self.fresh("null<%s>" % self.env.pname(path), Bool)
            st.mem[path] = Ptr([(isnull, None), (Not(isnull), Arr(block, z3.IntVal(0)))])
        elif k == "lv":
            l, ty = item[1], item[2]
            self.lv_store(st, l, self.fresh("out", sort_of(ty)))
        else:
            raise Unsupported("modifies item")

    # ------------------------------------------------------------ frames, bodies
    def make_frame(self, f, this, argd, st, depth):
        fr = Frame(f, this, depth)
        self.frames += 1
        fr.id = self.frames
        fr.declpath = {}
        fr.args = argd
        fr.parent = None
        for pd in f.params:
            nm = pd.get("name")
            if nm is None:
                continue
            kind, v, ty = argd[nm]
            p = ("%", fr.id, nm)
            if kind == "val":
                st.mem[p] = v
                fr.declpath[pd["id"]] = p
                fr.names[nm] = p
                fr.vty[p] = ty
            elif kind == "obj":
                if node_type(pd).ref or True:
                    fr.refs[pd["id"]] = ("obj", v.path, v.cls) if len(v.alts) == 1 else ("multi", [(c, ("obj", q, v.cls)) for c, q in v.alts])
            else:
                fr.refs[pd["id"]] = v
        fr.entry = st.copy()
        return fr

    def run_body(self, fr, st, f):
        for ini in f.inits:
            self.line = ini.get("_bl", self.line)
            if "anyInit" in ini:
                fld = ini["anyInit"]
                fty = node_type(fld)
                p = fr.this[0] + (fld["name"],)
                e = [x for x in ini.get("inner", []) if x]
                if self.env.is_class(fty):
                    x = e[0]
                    while x["kind"] in ("ExprWithCleanups",):
                        x = self.inner(x)
                    self.construct(x, st, fr, p, fty.base)
                elif e:
                    if e[0]["kind"] in ("ImplicitValueInitExpr",) or e[0]["kind"] == "InitListExpr":
                        continue
                    self.lv_store(st, ("loc", p, fty), self.ev(e[0], st, fr))
            elif "baseInit" in ini:
                bt = parse_type(ini["baseInit"].get("desugaredQualType", ini["baseInit"]["qualType"])).base
                e = [x for x in ini.get("inner", []) if x]
                self.construct(e[0], st, fr, fr.this[0], bt)
        end = self.stmt(f.body, st, fr)
        if end is not None:
            fr.returns.append((end, None, self.line))
        if fr.gotos:
            raise Unsupported("goto without forward label")

    # ------------------------------------------------------------ statements
    def stmt(self, n, st, fr):
        if st is None and n["kind"] != "LabelStmt":
            # dead code, but labels inside must still be seen
            if not self._has_label(n):
                return None
        if "_bl" in n and n["kind"] != "CompoundStmt":
            self.line = n["_bl"]
        k = n["kind"]
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(n, st, fr)
        self.ev(n, st, fr)
        return st

    def _has_label(self, n):
        if n.get("kind") == "LabelStmt":
            return True
        return any(self._has_label(x) for x in n.get("inner", []) if x)

    def s_CompoundStmt(self, n, st, fr):
        for x in n.get("inner", []):
            st = self.stmt(x, st, fr)
        return st

    def s_NullStmt(self, n, st, fr):
        return st

    def s_DeclStmt(self, n, st, fr):
        for d in n.get("inner", []):
            if d["kind"] != "VarDecl":
                continue
            ty = node_type(d)
            p = ("%", fr.id, d["name"], d["id"])
            init = [x for x in d.get("inner", []) if x and not x["kind"].endswith("Comment")]
            if d.get("storageClass") == "static":
                raise Unsupported("static local")
            if ty.ref:
                if self.env.is_class(ty.noref()):
                    l = self.lv(init[0], st, fr)
                else:
                    l = self.lv(init[0], st, fr)
                fr.refs[d["id"]] = l
                continue
            fr.declpath[d["id"]] = p
            fr.names[d["name"]] = p
            fr.vty[p] = ty
            if self.env.is_class(ty):
                self.havoc_new_obj(st, p, ty.base)
                if init:
                    x = init[0]
                    while x["kind"] in ("ExprWithCleanups",):
                        x = self.inner(x)
                    if x["kind"] == "CXXConstructExpr":
                        self.construct(x, st, fr, p, ty.base)
                    else:
                        o = self.ev(x, st, fr)
                        self.memberwise_copy(st, p, o.path, ty.base)
                continue
            if ty.arr:
                if ty.ptr:
                    continue
                cnt = 1
                for a in ty.arr:
                    cnt *= a
                self.env.sizes[p] = z3.IntVal(cnt)
                st.arrs[p] = self.fresh("local." + d["name"], z3.ArraySort(Int, sort_of(Ty(ty.base))))
                if init and init[0]["kind"] == "InitListExpr":
                    for i, e in enumerate(init[0].get("inner", [])):
                        st.arrs[p] = z3.Store(st.arrs[p], i, self.convert(self.ev(e, st, fr), Ty(ty.base)))
                continue
            if init:
                v = self.ev(init[0], st, fr)
                if isinstance(v, tuple) and v[0] == "str":
                    v = Ptr([(T, Opq(v))])
                self.lv_store(st, ("loc", p, ty), v)
            else:
                if ty.ptr:
                    st.mem[p] = Ptr([(T, Opq(("uninit",) + p))])
                else:
                    st.mem[p] = self.fresh("uninit." + d["name"], sort_of(ty))
        return st

    def s_ReturnStmt(self, n, st, fr):
        inn = [x for x in n.get("inner", []) if x]
        v = None
        if inn:
            if fr.func.ret.ref:
                if self.env.is_class(fr.func.ret.noref()):
                    v = self.lv_load(st, self.lv(inn[0], st, fr))
                else:
                    v = self.lv(inn[0], st, fr)
            else:
                v = self.ev(inn[0], st, fr)
                if isinstance(v, tuple) and v and v[0] == "str":
                    v = Ptr([(T, Opq(v))])
                if not isinstance(v, Obj):
                    v = self.convert(v, fr.func.ret) if v is not None and not isinstance(v, tuple) else v
        fr.returns.append((st, v, n.get("_bl", self.line)))
        return None

    def s_IfStmt(self, n, st, fr):
        inn = [x for x in n["inner"] if x]
        if n.get("hasInit") or n.get("hasVar"):
            raise Unsupported("if with init")
        c = to_bool(self.ev(inn[0], st, fr))
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return self.stmt(inn[1], st, fr)
        if z3.is_false(cs):
            if n.get("hasElse"):
                return self.stmt(inn[2], st, fr)
            return st
        if self.top is not None and self.top.prune and not fr.loopno[1:]:
            if self.quick(self.facts, st.pc, c, 300):
                return self.stmt(inn[1], st, fr)
            if self.quick(self.facts, st.pc, Not(c), 300):
                return self.stmt(inn[2], st, fr) if n.get("hasElse") else st
        s1 = st.with_pc(c)
        s2 = st.with_pc(Not(c))
        s1 = self.stmt(inn[1], s1, fr)
        if n.get("hasElse"):
            s2 = self.stmt(inn[2], s2, fr)
        return merge(s1, s2)

    def s_SwitchStmt(self, n, st, fr):
        inn = [x for x in n["inner"] if x]
        v = to_num(self.ev(inn[0], st, fr))
        body = inn[1]
        fr.loops.append({"breaks": [], "continues": None})
        base = st
        cur = None
        notany = []
        items = body.get("inner", []) if body["kind"] == "CompoundStmt" else [body]
        # collect all case values for default
        vals = []

        def casevals(x):
            if x["kind"] == "CaseStmt":
                ce = [y for y in x["inner"] if y]
                vals.append(to_num(self.ev(ce[0], base, fr)))
                casevals(ce[1])
            elif x["kind"] == "DefaultStmt":
                casevals([y for y in x["inner"] if y][0])
        for x in items:
            casevals(x)
        hasdef = False

        def impossible(g):
            return self.top is not None and self.top.prune and not fr.loopno[1:] and self.quick(self.facts, base.pc, Not(g), 300)

        def run(x, cur):
            nonlocal hasdef
            if x["kind"] == "CaseStmt":
                ce = [y for y in x["inner"] if y]
                cv = to_num(self.ev(ce[0], base, fr))
                if not impossible(v == cv):
                    cur = merge(cur, base.with_pc(v == cv))
                return run(ce[1], cur)
            if x["kind"] == "DefaultStmt":
                hasdef = True
                if not impossible(And([v != w for w in vals])):
                    cur = merge(cur, base.with_pc(And([v != w for w in vals])))
                return run([y for y in x["inner"] if y][0], cur)
            return self.stmt(x, cur, fr) if cur is not None else None
        for x in items:
            cur = run(x, cur)
        if not hasdef and not impossible(And([v != w for w in vals])):
            cur = merge(cur, base.with_pc(And([v != w for w in vals])))
        top = fr.loops.pop()
        for s in top["breaks"]:
            cur = merge(s, cur)
        return cur

    def s_BreakStmt(self, n, st, fr):
        fr.loops[-1]["breaks"].append(st)
        return None

    def s_ContinueStmt(self, n, st, fr):
        for l in reversed(fr.loops):
            if l["continues"] is not None:
                l["continues"].append(st)
                return None
        raise Unsupported("continue")

    def s_GotoStmt(self, n, st, fr):
        fr.gotos.setdefault(n["targetLabelDeclId"], []).append(st)
        return None

    def s_LabelStmt(self, n, st, fr):
        lid = n.get("declId") or n.get("id")
        for s in fr.gotos.pop(n.get("declId"), []):
            st = merge(s, st)
        return self.stmt([x for x in n["inner"] if x][0], st, fr) if st is not None else None

    # ------------------------------------------------------------ loops
    def s_ForStmt(self, n, st, fr):
        init, _, cond, inc, body = (n["inner"] + [None] * 5)[:5]
        if init:
            st = self.stmt(init, st, fr)
        return self.loop(n, cond if cond else None, inc if inc else None, body, st, fr, False)

    def s_WhileStmt(self, n, st, fr):
        inn = [x for x in n["inner"] if x]
        return self.loop(n, inn[0], None, inn[1], st, fr, False)

    def s_DoStmt(self, n, st, fr):
        inn = [x for x in n["inner"] if x]
        return self.loop(n, inn[1], None, inn[0], st, fr, True)

    def find_iv(self, n, cond, inc, body, fr):
        """induction variable: (path, step) or None"""
        def var_of(x):
            while x["kind"] in ("ParenExpr", "ImplicitCastExpr"):
                x = self.inner(x)
            if x["kind"] == "DeclRefExpr":
                return fr.declpath.get(x["referencedDecl"]["id"])
            return None

        def scan(x, top=True):
            if x is None or not x:
                return None
            if x["kind"] == "UnaryOperator" and x["opcode"] in ("++", "--"):
                p = var_of(self.inner(x))
                if p:
                    return p, (1 if x["opcode"] == "++" else -1)
            if x["kind"] == "CompoundAssignOperator" and x["opcode"] in ("+=", "-="):
                y = x["inner"][1]
                while y["kind"] in ("ParenExpr", "ImplicitCastExpr"):
                    y = self.inner(y)
                if y["kind"] == "IntegerLiteral":
                    p = var_of(x["inner"][0])
                    if p:
                        return p, int(y["value"]) * (1 if x["opcode"] == "+=" else -1)
            if x["kind"] == "BinaryOperator" and x["opcode"] == "=":
                y = x["inner"][1]
                while y["kind"] in ("ParenExpr", "ImplicitCastExpr"):
                    y = self.inner(y)
                p = var_of(x["inner"][0])
                if p and y["kind"] == "BinaryOperator" and y["opcode"] in ("+", "-") and var_of(y["inner"][0]) == p:
                    z = y["inner"][1]
                    while z["kind"] in ("ParenExpr", "ImplicitCastExpr"):
                        z = self.inner(z)
                    if z["kind"] == "IntegerLiteral":
                        return p, int(z["value"]) * (1 if y["opcode"] == "+" else -1)
            if x["kind"] == "BinaryOperator" and x["opcode"] == ",":
                return scan(x["inner"][0]) or scan(x["inner"][1])
            if x["kind"] == "CompoundStmt":
                for y in reversed(x.get("inner", [])):
                    r = scan(y)
                    if r and self._mentions(cond, r[0], fr):
                        return r
            return None
        r = scan(inc) if inc else None
        if r is None and body is not None:
            r = scan(body)
        return r

    def _mentions(self, x, path, fr):
        if not x:
            return False
        if x.get("kind") == "DeclRefExpr":
            if fr.declpath.get(x["referencedDecl"]["id"]) == path:
                return True
        return any(self._mentions(y, path, fr) for y in x.get("inner", []) if y)

    def loop(self, n, cond, inc, body, st, fr, dowhile):
        idx = fr.loopno[-1]
        fr.loopno[-1] += 1
        fr.looppath.append(str(idx))
        lp = ".".join(fr.looppath)
        try:
            if dowhile:
                # first iteration, then while
                fr.loops.append({"breaks": [], "continues": []})
                fr.loopno.append(0)
                s = self.stmt(body, st, fr)
                fr.loopno.pop()
                l = fr.loops.pop()
                for x in l["continues"]:
                    s = merge(x, s)
                first_breaks = l["breaks"]
                if s is None:
                    out = None
                else:
                    out = self.loop_core(n, cond, inc, body, s, fr, lp)
                for b in first_breaks:
                    out = merge(b, out)
                return out
            return self.loop_core(n, cond, inc, body, st, fr, lp)
        finally:
            fr.looppath.pop()

    def one_iter(self, head, cond, inc, body, fr):
        """execute one iteration from head state; returns (end_state, exit_states, breakstates)"""
        s = head.copy()
        exit_state = None
        if cond:
            c = to_bool(self.ev(cond, s, fr))
            exit_state = s.with_pc(Not(c))
            s = s.with_pc(c)
            if z3.is_false(z3.simplify(c)):
                s = None
        fr.loops.append({"breaks": [], "continues": []})
        fr.loopno.append(0)
        e = self.stmt(body, s, fr) if s is not None else None
        fr.loopno.pop()
        l = fr.loops.pop()
        for x in l["continues"]:
            e = merge(x, e)
        if e is not None and inc:
            self.ev(inc, e, fr)
        return e, exit_state, l["breaks"]

    def changed(self, a, states):
        """paths/arrays whose value in some state differs from state a"""
        mem, arrs, dead = set(), set(), set()
        for s in states:
            if s is None:
                continue
            for k, v in s.mem.items():
                o = a.mem.get(k)
                if o is None:
                    if k[0] == "%":
                        continue
                    o = self.env.mem.get(k)
                    if o is None:
                        continue   # object created inside iteration
                if not val_same(v, o):
                    mem.add(k)
            for k, v in s.arrs.items():
                o = a.arrs.get(k, self.env.arrs.get(k))
                if o is None:
                    continue
                if not v.eq(o):
                    arrs.add(k)
            for k, v in s.dead.items():
                if k in a.dead and not v.eq(a.dead[k]):
                    dead.add(k)
                elif k not in a.dead and k not in self.newblocks and not z3.is_false(v):
                    dead.add(k)
        return mem, arrs, dead

    def loop_core(self, n, cond, inc, body, st, fr, lp):
        entry = st.copy()
        line = n.get("_bl")
        iv = self.find_iv(n, cond, inc, body, fr)
        info = {"ivpath": iv[0] if iv else None, "step": iv[1] if iv else None, "path": lp}
        inv_fn = self.reg.find_loop(fr.func, lp)
        nret = len(fr.returns)
        gsave = {k: list(v) for k, v in fr.gotos.items()}
        # ---- modified set by dry-run fixpoint
        modm, moda, modd = set(), set(), set()
        head = entry
        endstate = None
        self.dry += 1
        nf = len(self.facts)
        try:
            for it in range(12):
                head = self.make_head(entry, modm, moda, modd, it)
                nn0 = self.nnew
                e, ex, br = self.one_iter(head, cond, inc, body, fr)
                rets = [r[0] for r in fr.returns[nret:]]
                del fr.returns[nret:]
                fr.gotos = {k: list(v) for k, v in gsave.items()}
                cm, ca, cd = self.changed(head, [e])
                # values changed only on break/return paths need no havoc at the head
                if cm <= modm and ca <= moda and cd <= modd:
                    endstate = e
                    break
                modm |= cm
                moda |= ca
                modd |= cd
            else:
                raise Unsupported("loop write set did not stabilise")
        finally:
            self.dry -= 1
            del self.facts[nf:]
        # ---- head state
        # the head of the last dry run is reused (its constants appear in endstate)
        hst = head
        old = SV(fr.entry, fr.this, fr.args)
        topold = SV(self.topentry, self.topframe.this, self.topframe.args) if self.topentry is not None else old

        def ctx(s):
            c = Ctx(self, old, SV(s, fr.this, fr.args), None, fr, SV(entry, fr.this, fr.args), info)
            c.topold = topold
            return c
        invs = []
        if inv_fn is not None:
            invs = inv_fn
        tag = "%s/loop%s" % (fr.func.qual, lp)
        # ---- automatic invariants (Houdini)
        autos = []
        if endstate is not None and (inv_fn is None or self.top is None or self.top.auto):
            cands = self.candidates(entry, head, endstate, info, cond, modm, moda, fr)
            autos = self.houdini(cands, entry, head, cond, inc, body, fr, ctx, inv_fn)
        # ---- initiation
        if inv_fn is not None:
            for nm, g in inv_fn(ctx(entry)):
                self.line = line
                self.oblige(entry, g, tag + ":inv-init:" + nm, "inv")
        # ---- assume at head
        for a in autos:
            self.assume(hst, a(hst))
        if inv_fn is not None:
            for nm, g in inv_fn(ctx(hst)):
                self.assume(hst, g)
        if not self.dry:
            self.covers.append((tag + ":head", len(self.facts), hst.pc))
        # ---- iteration
        e, ex, br = self.one_iter(hst, cond, inc, body, fr)
        if e is not None:
            if inv_fn is not None:
                for nm, g in inv_fn(ctx(e)):
                    self.line = line
                    self.oblige(e, g, tag + ":inv-step:" + nm, "inv")
        if inv_fn is None and not autos and (moda or any(k[0] != "%" for k in modm)):
            self.loop_unbound.append(tag)
        out = ex
        for b in br:
            out = merge(b, out)
        if not self.dry and autos:
            self.autoinv.append((tag, len(autos)))
        return out

    def make_head(self, entry, modm, moda, modd, it):
        h = entry.copy()
        for k in modm:
            v = entry.mem.get(k, self.env.mem.get(k))
            if isinstance(v, Ptr):
                alts = v.alts
                nn = [t for c, t in alts if t is not None]
                blocks = {t.key() for t in nn}
                if len(blocks) == 1 and isinstance(nn[0], Arr) and len(alts) == 1:
                    h.mem[k] = Ptr([(T, Arr(nn[0].block, self.fresh("off", Int)))])
                elif k[0] == "%" and len(nn) == 1 and isinstance(nn[0], Opq) and nn[0].key and "uninit" in str(nn[0].key()):
                    # a local assigned in every iteration before use: unknown at the head (null or not, never dereferenceable)
                    c = self.fresh("ptrnull", Bool)
                    h.mem[k] = Ptr([(c, None), (Not(c), Opq(("uninit-loop", it) + k))])
                else:
                    raise Unsupported("pointer variable changed in loop: " + str(k))
            else:
                h.mem[k] = self.fresh("h." + str(k[-1] if k[0] != "%" else k[2]), v.sort())
        for k in moda:
            a = entry.arrs.get(k, self.env.arrs.get(k))
            h.arrs[k] = self.fresh("harr<%s>" % self.env.pname(k), a.sort())
        for k in modd:
            h.dead[k] = self.fresh("dead", Bool)
        # keep guard; the head is reached from entry's path
        return h

    # ------------------------------------------------------------ automatic invariants
    def candidates(self, entry, head, end, info, cond, modm, moda, fr):
        c = []
        env = self.env

        def gm(s, k):
            v = s.mem.get(k)
            return v if v is not None else env.mem[k]

        def ga(s, k):
            v = s.arrs.get(k)
            return v if v is not None else env.arrs[k]
        ivp = info["ivpath"]
        varying = set()
        for k in modm:
            v = head.mem[k]
            if isinstance(v, Ptr):
                for _, t in v.alts:
                    if isinstance(t, Arr):
                        varying.add(t.off.get_id())
            else:
                varying.add(v.get_id())
        for k in moda:
            varying.add(head.arrs[k].get_id())

        def consts(t, acc, seen):
            i = t.get_id()
            if i in seen:
                return
            seen.add(i)
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.append(t)
            if z3.is_quantifier(t):
                consts(t.body(), acc, seen)
            elif z3.is_app(t):
                for x in t.children():
                    consts(x, acc, seen)

        def bodyfresh(t):
            """constants created while executing the body (not closed)"""
            acc = []
            consts(t, acc, set())
            out = []
            for x in acc:
                nm = x.decl().name()
                if "!" in nm:
                    try:
                        no = int(nm.rsplit("!", 1)[1])
                    except ValueError:
                        continue
                    if no > head_no and x.get_id() not in varying:
                        out.append(x)
            return out
        head_no = max([int(head.mem[k].decl().name().rsplit("!", 1)[1]) for k in modm
                       if not isinstance(head.mem[k], Ptr)] +
                      [int(head.arrs[k].decl().name().rsplit("!", 1)[1]) for k in moda] + [0])

        # 1. integer variables with monotone change
        for k in modm:
            hv, ev_ = head.mem[k], end.mem.get(k)
            if isinstance(hv, Ptr) or hv.sort() != Int:
                continue
            e0 = entry.mem.get(k, env.mem.get(k))
            up = info["step"] if k == ivp else None
            if up is None or up > 0:
                c.append(lambda s, k=k, e0=e0: gm(s, k) >= e0)
            if up is None or up < 0:
                c.append(lambda s, k=k, e0=e0: gm(s, k) <= e0)
        # 2. upper/lower bound from the loop condition
        if cond and ivp is not None and ivp in modm:
            hd = end.pc[len(head.pc):len(head.pc) + 1]
            if hd:
                atoms = [hd[0]]
                while atoms:
                    a = atoms.pop()
                    if z3.is_and(a):
                        atoms += a.children()
                        continue
                    iv = head.mem[ivp]
                    if z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE, z3.Z3_OP_NOT, z3.Z3_OP_DISTINCT, z3.Z3_OP_EQ):
                        # try bound terms
                        neg = z3.is_not(a)
                        x = a.arg(0) if neg else a
                        if x.num_args() != 2 or x.arg(0).sort() != Int:
                            continue
                        l, r = x.arg(0), x.arg(1)
                        for u, w in ((l, r), (r, l)):
                            acc = []
                            consts(w, acc, set())
                            if any(y.get_id() in varying for y in acc) or bodyfresh(w):
                                continue
                            d = z3.simplify(u - iv)
                            acc = []
                            consts(d, acc, set())
                            if any(y.get_id() in varying for y in acc) or bodyfresh(d):
                                continue
                            b = w - d
                            e0 = entry.mem.get(ivp, env.mem.get(ivp))
                            # iv REL b on entry to the body
                            rel = {z3.Z3_OP_LT: "<", z3.Z3_OP_LE: "<=", z3.Z3_OP_GT: ">", z3.Z3_OP_GE: ">="}.get(x.decl().kind(), "!=")
                            if neg:
                                rel = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}.get(rel, rel)
                            if u is r:
                                rel = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(rel, rel)
                            step = info["step"] or 0
                            for de in {"<": (0,), ">": (0,), "<=": (1,), ">=": (-1,)}.get(rel, (0, 1, -1)):
                                if step >= 0:
                                    c.append(lambda s, b=b, e0=e0, de=de: gm(s, ivp) <= If(b + de >= e0, b + de, e0))
                                if step <= 0:
                                    c.append(lambda s, b=b, e0=e0, de=de: gm(s, ivp) >= If(b + de <= e0, b + de, e0))
        # 3. arrays written at one index linear in the induction variable
        if ivp is not None and ivp in modm and info["step"] in (1, -1) and z3.is_expr(head.mem[ivp]):
            iv = head.mem[ivp]
            e0 = entry.mem.get(ivp, env.mem.get(ivp))
            for blk in moda:
                ha = head.arrs[blk]
                ea = end.arrs[blk]
                a0 = entry.arrs.get(blk, env.arrs.get(blk))
                idxs = []
                if not self._store_indices(ea, ha, idxs):
                    continue
                uniq = []
                for t in idxs:
                    t = z3.simplify(t)
                    if not any(t.eq(u) for u in uniq):
                        uniq.append(t)
                shifts = []
                for t in uniq:
                    d = z3.simplify(t - iv)
                    acc = []
                    consts(d, acc, set())
                    if any(y.get_id() in varying for y in acc) or bodyfresh(d):
                        shifts = None
                        break
                    shifts.append(d)
                if not shifts:
                    continue
                up = info["step"] == 1
                k = z3.Int("k!auto")

                def outside(s, blk=blk, a0=a0, shifts=shifts, up=up, e0=e0):
                    i = gm(s, ivp)
                    a = ga(s, blk)
                    cs = []
                    for d in shifts:
                        cs.append(Or(k < e0 + d, k >= i + d) if up else Or(k > e0 + d, k <= i + d))
                    return z3.ForAll([k], Implies(And(cs), z3.Select(a, k) == z3.Select(a0, k)), patterns=[z3.Select(a, k)] if z3.is_const(a) else [])
                c.append(outside)
                if len(shifts) == 1:
                    d = shifts[0]
                    t = uniq[0]
                    val = z3.simplify(z3.Select(ea, t))
                    acc = []
                    consts(val, acc, set())
                    bad = [y for y in acc if y.get_id() in varying and not y.eq(iv) and not any(y.eq(head.arrs[b2]) for b2 in moda)]
                    if not bad and not bodyfresh(val):
                        subs = [(iv, k - d)]
                        for b2 in moda:
                            subs.append((head.arrs[b2], entry.arrs.get(b2, env.arrs.get(b2))))
                        val0 = z3.substitute(val, *subs)

                        def mapped(s, blk=blk, val0=val0, d=d, up=up, e0=e0):
                            i = gm(s, ivp)
                            a = ga(s, blk)
                            rng = And(k >= e0 + d, k < i + d) if up else And(k <= e0 + d, k > i + d)
                            return z3.ForAll([k], Implies(rng, z3.Select(a, k) == val0), patterns=[z3.Select(a, k)] if z3.is_const(a) else [])
                        c.append(mapped)
        return c

    def _store_indices(self, t, base, out):
        if t.eq(base):
            return True
        if z3.is_app(t):
            k = t.decl().kind()
            if k == z3.Z3_OP_STORE:
                out.append(t.arg(1))
                return self._store_indices(t.arg(0), base, out)
            if k == z3.Z3_OP_ITE:
                return self._store_indices(t.arg(1), base, out) and self._store_indices(t.arg(2), base, out)
        return False

    def quick(self, facts, pc, goal, ms=400):
        self.houdini_solver_calls += 1
        hyps = list(imul_axioms()) + rmul_axioms() + list(self.env.facts) + list(facts) + list(pc)
        for opts in ((), (("smt.random_seed", 3),), (("smt.arith.solver", 2),), (("smt.random_seed", 11),)):
            ctx = z3.main_ctx() if not opts else z3.Context()
            s = z3.Solver(ctx=ctx)
            s.set("timeout", ms)
            s.set("smt.mbqi", False)
            for k, v in opts:
                s.set(k, v)
            for h in hyps + [z3.Not(goal)]:
                s.add(h.translate(ctx) if opts else h)
            r = s.check()
            if r != z3.unknown or s.reason_unknown() not in ("timeout", "canceled"):
                break
        return r == z3.unsat

    def houdini(self, cands, entry, head, cond, inc, body, fr, ctx, inv_fn):
        if not cands:
            return []
        key = None
        if self.dry:
            # inside an enclosing dry run only cheap candidates are needed; none are assumed (over-approximation)
            return []
        live = []
        for a in cands:
            try:
                g = z3.simplify(a(entry))
            except KeyError:
                continue
            if z3.is_true(g) or self.quick(self.facts, entry.pc, g):
                live.append(a)
            elif self.opts.get("debug"):
                print("houdini init drop", g)
        nret = len(fr.returns)
        gsave = {k: list(v) for k, v in fr.gotos.items()}
        for rnd in range(6):
            if not live:
                return []
            mark = len(self.facts)
            self.dry += 1
            nc = len(self.covers)
            try:
                h = head.copy()
                for a in live:
                    self.assume(h, a(h))
                if inv_fn is not None:
                    for nm, g in inv_fn(ctx(h)):
                        self.assume(h, g)
                e, ex, br = self.one_iter(h, cond, inc, body, fr)
                del fr.returns[nret:]
                fr.gotos = {k: list(v) for k, v in gsave.items()}
            finally:
                self.dry -= 1
            if e is None:
                del self.facts[mark:]
                return live
            ok = []
            for a in live:
                g = z3.simplify(a(e))
                if z3.is_true(g) or self.quick(self.facts, e.pc, g):
                    ok.append(a)
                elif self.opts.get("debug"):
                    print("houdini drop", g)
            del self.facts[mark:]
            if len(ok) == len(live):
                return ok
            live = ok
        return live

    # ------------------------------------------------------------ verification of one function
    def verify(self, con, func):
        self.top = con
        self.div0 = con.div0
        self.bounds = con.bounds
        self.newblocks = set()
        FLAGS["imul"] = FLAGS["rowcol"] = False
        FLAGS["rmul"] = con.opaque_mul
        env = self.env
        st = State(env)
        this = None
        if func.cls is not None and not func.static:
            this = (("this",), con.dyn or func.cls)
        argd = {}
        for i, pd in enumerate(func.params):
            ty = node_type(pd)
            nm = pd.get("name") or ("$%d" % i)
            if ty.ref:
                if env.is_class(ty.noref()):
                    argd[nm] = ("obj", Obj([(T, (nm,))], env.dyn.get((nm,), ty.base)), ty.noref())
                else:
                    argd[nm] = ("ref", ("loc", ("&" + nm,), ty.noref()), ty.noref())
            elif env.is_class(ty):
                argd[nm] = ("obj", Obj([(T, (nm,))], ty.base), ty)
            else:
                argd[nm] = ("val", None, ty)
        self.argd0 = argd
        if con.setup:
            con.setup(self, argd)
        for nm, (k, v, ty) in list(argd.items()):
            if k == "val" and v is None:
                argd[nm] = (k, env.init((nm,), ty), ty)
        self.topentry = None
        if func.kind == "CXXConstructorDecl":
            self.havoc_new_obj(st, this[0], func.cls)
        fr = self.make_frame(func, this, argd, st, 0)
        self.topframe = fr
        self.topentry = fr.entry
        self.line = func.line
        c = Ctx(self, SV(fr.entry, this, argd), SV(st, this, argd))
        for nm, g in con.requires(c):
            self.fact(g)
        self.covers.append(("entry", len(self.facts), ()))
        self.run_body(fr, st, func)
        nret = 0
        for s, v, ln in fr.returns:
            nret += 1
            self.line = ln
            if v is not None and not isinstance(v, (Obj, tuple)):
                rv = wrap(s, v, func.ret)
            elif isinstance(v, Obj):
                rv = ObjView(s, v.path, v.cls) if len(v.alts) == 1 else v
            else:
                rv = v
            c = Ctx(self, SV(fr.entry, this, argd), SV(s, this, argd), rv, fr)
            c.line = ln
            self.covers.append(("return@%s" % ln, len(self.facts), s.pc))
            if con.post_lemmas:
                for g in con.post_lemmas(c):
                    self.fact(g, s)
            for nm, g in con.ensures(c):
                self.oblige(s, g, "post:%s@ret%d" % (nm, nret), "post")
                if nm.startswith("lemma:"):
                    self.fact(g, s)      # proved by the obligation just added; cut for the later ones
            if con.frame:
                self.check_frame(con, c, s, fr, nret)
        self.nreturns = nret

    def check_frame(self, con, c, s, fr, nret):
        okp, oka = set(), set()
        c2 = Ctx(self, c.old, c.old)
        for it in con.modifies(c2):
            if it[0] in ("field", "newptr"):
                okp.add(it[1])
            elif it[0] == "arr":
                oka.add(it[1])
            elif it[0] == "lv":
                if it[1][0] == "loc":
                    okp.add(it[1][1])
                elif it[1][0] == "arr":
                    oka.add(it[1][1])
            elif it[0] == "prefix":
                okp.add(("prefix",) + it[1])
        pre = [p[1:] for p in okp if p and p[0] == "prefix"]

        def allowed(p):
            return p in okp or p in oka or any(p[:len(q)] == q for q in pre)
        for k, v in s.mem.items():
            if k[0] == "%" or k[0] in ("::",) or k[:1] in self.newblocks or allowed(k):
                continue
            if fr.func.kind == "CXXConstructorDecl" and k[0] == "this":
                continue
            o = self.env.mem.get(k)
            if o is None:
                continue
            if val_same(v, o):
                continue
            if isinstance(v, Ptr):
                self.oblige(s, ptr_eq(v, o), "frame:%s@ret%d" % (self.env.pname(k), nret), "frame")
            else:
                self.oblige(s, v == o, "frame:%s@ret%d" % (self.env.pname(k), nret), "frame")
        for k, v in s.arrs.items():
            if k[0] == "%" or k in self.newblocks or allowed(k):
                continue
            o = self.env.arrs.get(k)
            if o is None or v.eq(o):
                continue
            x = z3.Int("k!frame")
            self.oblige(s, z3.ForAll([x], Implies(And(x >= 0, x < self.env.size(k)), v[x] == o[x])),
                        "frame:%s[]@ret%d" % (self.env.pname(k), nret), "frame")


# modifies helpers ------------------------------------------------------
def mfield(view, name):
    ty = view._fty(name)
    if ty.ptr:
        return ("field", view._path + (name,), ty)
    return ("field", view._path + (name,), ty)


def marr(pv):
    """whole array behind a pointer"""
    nn = pv.p.nonnull()
    if len(nn) == 1 and isinstance(nn[0][1], Arr):
        return [("arr", nn[0][1].block, sort_of(pv.ty.deref()), pv.null)]
    if not nn:
        return []
    out = []
    for c, t in nn:
        if isinstance(t, Arr):
            out.append(("arr", t.block, sort_of(pv.ty.deref()), Not(c)))
        elif isinstance(t, Loc):
            out.append(("field", t.path, t.ty))
        else:
            raise Unsupported("modifies of non-array pointer")
    return out


def mnew(view, name):
    return ("newptr", view._path + (name,), view._fty(name))


def mref(sv, name):
    kind, v, ty = sv._args[name]
    if kind != "ref":
        raise Unsupported("mref on non-reference")
    return ("lv", v, ty)


def mprefix(view):
    return ("prefix", view._path)
