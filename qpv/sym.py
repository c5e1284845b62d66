"""Symbolic values, states and contract views for the qpv verifier."""
import z3
from .frontend import Ty, INTS, REALS, class_fields, parse_type

Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()
T, F = z3.BoolVal(True), z3.BoolVal(False)


class Unsupported(Exception):
    pass


def And(*a):
    a = [x for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a) if not z3.is_true(x)]
    if not a:
        return T
    if any(z3.is_false(x) for x in a):
        return F
    return a[0] if len(a) == 1 else z3.And(a)


def Or(*a):
    a = [x for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a) if not z3.is_false(x)]
    if not a:
        return F
    if any(z3.is_true(x) for x in a):
        return T
    return a[0] if len(a) == 1 else z3.Or(a)


def Not(a):
    if z3.is_true(a):
        return F
    if z3.is_false(a):
        return T
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    if z3.is_true(a) or z3.is_true(b):
        return b
    if z3.is_false(a):
        return T
    return z3.Implies(a, b)


def same(a, b):
    return a is b or (z3.is_expr(a) and z3.is_expr(b) and a.eq(b))


def If(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


class Arr:
    """pointer target: element `off` of array block"""
    __slots__ = ("block", "off")

    def __init__(self, block, off):
        self.block, self.off = block, off

    def key(self):
        return ("A", self.block)


class ObjT:
    """pointer target: object at path"""
    __slots__ = ("path", "cls")

    def __init__(self, path, cls):
        self.path, self.cls = path, cls

    def key(self):
        return ("O", self.path)


class Loc:
    """pointer target: scalar/pointer location"""
    __slots__ = ("path", "ty")

    def __init__(self, path, ty):
        self.path, self.ty = path, ty

    def key(self):
        return ("L", self.path)


class Opq:
    """opaque non-null pointer target (string literal, function, FILE)"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def key(self):
        return ("Q", self.name)


class Ptr:
    __slots__ = ("alts",)

    def __init__(self, alts):
        # merge equal targets
        out = []
        for c, t in alts:
            if z3.is_false(c):
                continue
            k = None if t is None else t.key()
            for i, (c2, t2) in enumerate(out):
                if (None if t2 is None else t2.key()) == k:
                    if isinstance(t, Arr) and not t.off.eq(t2.off):
                        out[i] = (Or(c2, c), Arr(t.block, If(c2, t2.off, t.off)))
                    else:
                        out[i] = (Or(c2, c), t2)
                    break
            else:
                out.append((c, t))
        if len(out) == 1:
            out = [(T, out[0][1])]
        self.alts = out

    @property
    def null(self):
        return Or([c for c, t in self.alts if t is None])

    def nonnull(self):
        return [(c, t) for c, t in self.alts if t is not None]


NULL = Ptr([(T, None)])


def ptr_same(p, q):
    if p is q:
        return True
    if len(p.alts) != len(q.alts):
        return False
    for (c, t), (d, u) in zip(p.alts, q.alts):
        if not same(c, d):
            return False
        if (t is None) != (u is None):
            return False
        if t is not None:
            if t.key() != u.key():
                return False
            if isinstance(t, Arr) and not t.off.eq(u.off):
                return False
    return True


def ptr_eq(p, q):
    ds = []
    for c, t in p.alts:
        for d, u in q.alts:
            if t is None and u is None:
                ds.append(And(c, d))
            elif t is not None and u is not None and t.key() == u.key():
                if isinstance(t, Arr):
                    ds.append(And(c, d, t.off == u.off))
                else:
                    ds.append(And(c, d))
    return Or(ds)


def ptr_ite(c, p, q):
    return Ptr([(And(c, d), t) for d, t in p.alts] + [(And(Not(c), d), t) for d, t in q.alts])


class Obj:
    """class-typed lvalue/rvalue: alternatives of paths"""
    __slots__ = ("alts", "cls")

    def __init__(self, alts, cls):
        self.alts, self.cls = alts, cls

    @property
    def path(self):
        if len(self.alts) != 1:
            raise Unsupported("object lvalue with several targets")
        return self.alts[0][1]


def val_same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return ptr_same(a, b)
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    return False


def val_ite(c, a, b):
    if val_same(a, b):
        return a
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return ptr_ite(c, a, b)
    if z3.is_expr(a) and z3.is_expr(b):
        if a.sort() != b.sort():
            a, b = to_num(a), to_num(b)
            if a.sort() != b.sort():
                a, b = to_real(a), to_real(b)
        return If(c, a, b)
    raise Unsupported("cannot merge values %r %r" % (a, b))


def to_num(v):
    """C value of a bool in arithmetic context"""
    if z3.is_expr(v) and v.sort() == Bool:
        return If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def to_real(v):
    v = to_num(v)
    if v.sort() == Int:
        if z3.is_int_value(v):
            return z3.RealVal(v.as_long())
        return z3.ToReal(v)
    return v


def to_bool(v):
    if isinstance(v, Ptr):
        return Not(v.null)
    if v.sort() == Bool:
        return v
    if v.sort() == Int:
        # undo ite(b,1,0) for readability
        return z3.simplify(v != 0) if v.num_args() == 3 else v != 0
    return v != 0


def sort_of(ty):
    if ty.base in REALS:
        return Real
    if ty.base == "bool":
        return Bool
    return Int


class Env:
    """initial (lazily created) memory shared by all states of one verification"""

    def __init__(self, prog):
        self.P = prog
        self.mem = {}
        self.arrs = {}
        self.sizes = {}
        self.facts = []     # unconditional typing facts
        self.n = 0
        self.dyn = {}       # object path -> dynamic class
        self.alias = {}     # pointer path -> Ptr override at entry
        self.elem = {}

    def is_class(self, ty):
        return ty.base in self.P.classes and ty.ptr == 0 and not ty.arr

    def fresh(self, name, sort):
        self.n += 1
        return z3.Const("%s!%d" % (name, self.n), sort)

    def pname(self, path):
        return ".".join(str(x) for x in path)

    def size(self, block):
        s = self.sizes.get(block)
        if s is None:
            s = z3.Const("size<%s>" % self.pname(block), Int)
            self.sizes[block] = s
            self.facts.append(s >= 0)
        return s

    def init_ptr(self, path, ty, nm=None):
        """fresh pointer value for a pointer-typed location"""
        if path in self.alias:
            return self.alias[path]
        isnull = z3.Const("null<%s>" % (nm or self.pname(path)), Bool)
        tgt = path + ("*",)
        d = ty.deref()
        if d.fn or d.base == "void" or d.base.startswith("_IO"):
            t = Opq(tgt)
        elif d.ptr == 0 and d.base in self.P.classes:
            t = ObjT(tgt, self.dyn.get(tgt, d.base))
        elif d.ptr > 0:
            t = Loc(tgt, d)
        else:
            t = Arr(tgt, z3.IntVal(0))
        return Ptr([(isnull, None), (Not(isnull), t)])

    def init(self, path, ty):
        v = self.mem.get(path)
        if v is None:
            if ty.fn:
                v = Ptr([(T, Opq(path))])
            elif ty.ptr:
                v = self.init_ptr(path, ty)
            else:
                v = z3.Const(self.pname(path), sort_of(ty))
                if ty.base.startswith("unsigned"):
                    self.facts.append(v >= 0)
            self.mem[path] = v
        return v

    def init_arr(self, block, sort):
        a = self.arrs.get(block)
        if a is None:
            a = z3.Const("arr<%s>" % self.pname(block), z3.ArraySort(Int, sort))
            self.arrs[block] = a
        return a


class State:
    __slots__ = ("env", "mem", "arrs", "dead", "pc")

    def __init__(self, env):
        self.env = env
        self.mem = {}
        self.arrs = {}
        self.dead = {}
        self.pc = ()

    def copy(self):
        s = State.__new__(State)
        s.env, s.mem, s.arrs, s.dead, s.pc = self.env, dict(self.mem), dict(self.arrs), dict(self.dead), self.pc
        return s

    def load(self, path, ty):
        v = self.mem.get(path)
        return v if v is not None else self.env.init(path, ty)

    def store(self, path, v):
        self.mem[path] = v

    def arr(self, block, sort):
        a = self.arrs.get(block)
        return a if a is not None else self.env.init_arr(block, sort)

    def with_pc(self, c):
        s = self.copy()
        if not z3.is_true(c):
            s.pc = self.pc + (c,)
        return s

    @property
    def guard(self):
        return And(list(self.pc))


def merge(a, b):
    if a is None:
        return b
    if b is None:
        return a
    n = 0
    while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
        n += 1
    s = State(a.env)
    la, lb = a.pc[n:], b.pc[n:]
    if la and lb and (Not(la[0]).eq(lb[0]) or Not(lb[0]).eq(la[0])):
        ra, rb = la[0], lb[0]
        s.pc = a.pc[:n]
        if la[1:]:
            s.pc += (Implies(ra, And(list(la[1:]))),)
        if lb[1:]:
            s.pc += (Implies(rb, And(list(lb[1:]))),)
    else:
        ra, rb = And(list(la)), And(list(lb))
        o = z3.simplify(Or(ra, rb)) if len(la) + len(lb) <= 6 else Or(ra, rb)
        s.pc = a.pc[:n] if z3.is_true(o) else a.pc[:n] + (o,)
    for k in set(a.mem) | set(b.mem):
        va, vb = a.mem.get(k), b.mem.get(k)
        if va is None:
            va = a.env.mem.get(k)
        if vb is None:
            vb = b.env.mem.get(k)
        if va is None or vb is None:
            if k[0] == "%":       # local of one branch only
                s.mem[k] = va if va is not None else vb
                continue
            # object created in one branch only: other side never reads it
            s.mem[k] = va if va is not None else vb
            continue
        s.mem[k] = val_ite(ra, va, vb)
    for k in set(a.arrs) | set(b.arrs):
        va, vb = a.arrs.get(k), b.arrs.get(k)
        if va is None:
            va = a.env.arrs.get(k)
        if vb is None:
            vb = b.env.arrs.get(k)
        if va is None or vb is None:
            s.arrs[k] = va if va is not None else vb
            continue
        s.arrs[k] = va if va.eq(vb) else If(ra, va, vb)
    for k in set(a.dead) | set(b.dead):
        s.dead[k] = If(ra, a.dead.get(k, F), b.dead.get(k, F))
    return s


# ---------------------------------------------------------------- views
def wrap(st, v, ty):
    if isinstance(v, Ptr):
        return PtrView(st, v, ty)
    return v


class ObjView:
    def __init__(self, st, path, cls):
        self.__dict__.update(_st=st, _path=path, _cls=cls)

    def _fty(self, name):
        for f, ty in class_fields(self._st.env.P, self._cls):
            if f == name:
                return ty
        raise Unsupported("class %s has no field %s" % (self._cls, name))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        ty = self._fty(name)
        p = self._path + (name,)
        if self._st.env.is_class(ty):
            return ObjView(self._st, p, ty.base)
        if ty.arr:
            return PtrView(self._st, Ptr([(T, Arr(p, z3.IntVal(0)))]), Ty(ty.base, ty.ptr + 1))
        return wrap(self._st, self._st.load(p, ty), ty)

    def at(self, st):
        return ObjView(st, self._path, self._cls)


class PtrView:
    def __init__(self, st, p, ty):
        self.st, self.p, self.ty = st, p, ty

    def at(self, st):
        return PtrView(st, self.p, self.ty)

    @property
    def null(self):
        return self.p.null

    @property
    def tgt(self):
        nn = self.p.nonnull()
        if len(nn) != 1:
            raise Unsupported("pointer view with %d targets" % len(nn))
        return nn[0][1]

    @property
    def isarr(self):
        nn = self.p.nonnull()
        return len(nn) == 1 and isinstance(nn[0][1], Arr)

    @property
    def none(self):
        return not self.p.nonnull()

    @property
    def off(self):
        return self.tgt.off if isinstance(self.tgt, Arr) else z3.IntVal(0)

    @property
    def block(self):
        return self.tgt.block

    @property
    def size(self):
        """number of elements available from this pointer on (0 if null)"""
        nn = self.p.nonnull()
        if not nn:
            return z3.IntVal(0)
        r = None
        for c, t in nn:
            v = self.st.env.size(t.block) - t.off if isinstance(t, Arr) else z3.IntVal(1)
            v = If(Not(self.st.dead.get(t.block, F)), v, z3.IntVal(0)) if isinstance(t, Arr) else v
            r = v if r is None else If(c, v, r)
        return If(self.null, z3.IntVal(0), r)

    @property
    def arr(self):
        return self.st.arr(self.tgt.block, sort_of(self.ty.deref()))

    def __getitem__(self, k):
        if isinstance(k, int):
            k = z3.IntVal(k)
        nn = self.p.nonnull()
        srt = sort_of(self.ty.deref())
        if not nn:
            return z3.Const("null-deref", srt)
        r = None
        for c, t in nn:
            if isinstance(t, Loc):
                v = self.st.load(t.path, t.ty)
            else:
                o = k if z3.is_int_value(t.off) and t.off.as_long() == 0 else t.off + k
                v = z3.Select(self.st.arr(t.block, srt), o)
            r = v if r is None else If(c, v, r)
        return r

    @property
    def obj(self):
        t = self.tgt
        if not isinstance(t, ObjT):
            raise Unsupported("not an object pointer")
        return ObjView(self.st, t.path, t.cls)

    def eq(self, other):
        return ptr_eq(self.p, other.p)


# ---- products of integers: an uninterpreted function with its arithmetic laws as axioms (z3's own nonlinear
# integer arithmetic is not usable under quantifiers).  Everything asserted about it is a fact about multiplication.
_IMUL = z3.Function("imul", Int, Int, Int)
ROW = z3.Function("rowof", Int, Int, Int)     # ROW(p,L), COL(p,L): the j,k with p = j + L*k, 0<=j<L
COL = z3.Function("colof", Int, Int, Int)
FLAGS = {"imul": False, "rowcol": False, "rmul": False}
_imax = []


def imul_axioms():
    if not FLAGS["imul"]:
        return []
    if not _imax:
        a, b, c = z3.Ints("a!ax b!ax c!ax")
        m = _IMUL
        _imax.extend([
            z3.ForAll([a, b], And(Implies(And(a >= 0, b >= 0), m(a, b) >= 0), Implies(Or(a == 0, b == 0), m(a, b) == 0),
                                  Implies(a == 1, m(a, b) == b), Implies(b == 1, m(a, b) == a), m(a, b) == m(b, a)), patterns=[m(a, b)]),
            z3.ForAll([a, b, c], And(Implies(And(a >= 0, b < c), m(a, c) >= m(a, b) + a), Implies(c == b + 1, m(a, c) == m(a, b) + a)),
                      patterns=[z3.MultiPattern(m(a, b), m(a, c))])])
    out = list(_imax)
    if FLAGS["rowcol"]:
        p, L = z3.Ints("p!ax L!ax")
        f = And(p == ROW(p, L) + _IMUL(L, COL(p, L)), 0 <= ROW(p, L), ROW(p, L) < L, COL(p, L) >= 0)
        out.append(z3.ForAll([p, L], Implies(And(p >= 0, L > 0), f), patterns=[ROW(p, L)]))
        out.append(z3.ForAll([p, L], Implies(And(p >= 0, L > 0), f), patterns=[COL(p, L)]))
    return out


def _linear(t):
    """t as list of (int coefficient, atom or None)"""
    if z3.is_int_value(t):
        return [(t.as_long(), None)]
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_ADD:
        return [x for c in t.children() for x in _linear(c)]
    if k == z3.Z3_OP_SUB:
        ch = t.children()
        return _linear(ch[0]) + [(-c, a) for x in ch[1:] for c, a in _linear(x)]
    if k == z3.Z3_OP_UMINUS:
        return [(-c, a) for c, a in _linear(t.arg(0))]
    if k == z3.Z3_OP_MUL and t.num_args() == 2:
        for i in (0, 1):
            if z3.is_int_value(t.arg(i)):
                return [(t.arg(i).as_long() * c, a) for c, a in _linear(t.arg(1 - i))]
    return [(1, t)]


def imul(a, b):
    a = z3.IntVal(a) if isinstance(a, int) else a
    b = z3.IntVal(b) if isinstance(b, int) else b
    if z3.is_int_value(a) or z3.is_int_value(b):
        return z3.simplify(a * b)
    out = []
    for ca, x in _linear(a):
        for cb, y in _linear(b):
            c = ca * cb
            if c == 0:
                continue
            if x is None and y is None:
                t = z3.IntVal(c)
            elif x is None or y is None:
                z = y if x is None else x
                t = z if c == 1 else c * z
            else:
                FLAGS["imul"] = True
                if x.sexpr() > y.sexpr():
                    x1, y1 = y, x
                else:
                    x1, y1 = x, y
                t = _IMUL(x1, y1)
                t = t if c == 1 else c * t
            out.append(t)
    if not out:
        return z3.IntVal(0)
    return out[0] if len(out) == 1 else z3.Sum(out)


_RMUL = z3.Function("rmul", Real, Real, Real)


def rmul(a, b):
    """a product of reals; opaque (commutative, nothing else known) in functions verified with opaque_mul"""
    const = lambda v: z3.is_rational_value(v)
    if not FLAGS["rmul"] or const(a) or const(b):
        return a * b
    return _RMUL(a, b)


def rmul_axioms():
    if not FLAGS["rmul"]:
        return []
    a, b = z3.Reals("a!ax b!ax")
    return [z3.ForAll([a, b], _RMUL(a, b) == _RMUL(b, a), patterns=[_RMUL(a, b)])]


def rowof(p, L):
    FLAGS["imul"] = FLAGS["rowcol"] = True
    return ROW(p, L)


def colof(p, L):
    FLAGS["imul"] = FLAGS["rowcol"] = True
    return COL(p, L)
