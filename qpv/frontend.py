"""Front end: obtains the clang AST of /repo's current sources (a unity translation unit
that only #includes the real .cpp files) and indexes it.  Nothing is rewritten: the
verified text is the AST clang builds from the files as they are."""
import json, os, re, subprocess, tempfile, hashlib, sys

REPO = os.environ.get("QPV_REPO", "/repo")
CXXFLAGS = ["-DLINUX", "-D__USE_LONG_INTEGERS__", "-D__USE_LONG_FINTS__",
            "-DSOLVER_NONE", "-D__NO_COPYRIGHT__"]
SOURCES = ["Indexlist", "Flipper", "SubjectTo", "Bounds", "Constraints", "Matrices",
           "BLASReplacement", "LAPACKReplacement", "MessageHandling", "Options", "Utils",
           "QProblemB", "QProblem", "SQProblem", "SparseSolver", "SQProblemSchur",
           "SolutionAnalysis", "OQPinterface"]
EXTRA = ["interfaces/c/qpOASES_wrapper.cpp"]

TYPEDEFS = {"real_t": "double", "int_t": "long", "uint_t": "unsigned long",
            "la_int_t": "long", "la_uint_t": "unsigned long", "sparse_int_t": "long", "fint_t": "long",
            "fint": "long"}
INTS = {"int", "long", "unsigned int", "unsigned long", "short", "unsigned short", "char", "signed char",
        "unsigned char", "long long", "unsigned long long", "unsigned"}
REALS = {"double", "float"}


class FrontendError(Exception):
    pass


class Ty:
    __slots__ = ("base", "ptr", "ref", "arr", "fn")

    def __init__(self, base, ptr=0, ref=False, arr=None, fn=False):
        self.base, self.ptr, self.ref, self.arr, self.fn = base, ptr, ref, arr, fn

    def deref(self):
        return Ty(self.base, self.ptr - 1, False, None)

    def addr(self):
        return Ty(self.base, self.ptr + 1, False, None)

    def noref(self):
        return Ty(self.base, self.ptr, False, self.arr)

    def __repr__(self):
        return self.base + "*" * self.ptr + ("&" if self.ref else "") + (str(self.arr) if self.arr else "")


_tycache = {}


def parse_type(q):
    t = _tycache.get(q)
    if t is not None:
        return t
    s = q
    if "(" in s:
        t = Ty(s, 0, False, None, True)
        _tycache[q] = t
        return t
    arr = []
    while True:
        m = re.match(r"^(.*?)\s*((?:\[\d*\])+)$", s)
        if not m:
            break
        s = m.group(1)
        arr = [int(x or 0) for x in re.findall(r"\[(\d*)\]", m.group(2))]
    ref = "&" in s
    ptr = s.count("*")
    s = re.sub(r"[*&]", " ", s)
    s = re.sub(r"\b(const|volatile|struct|class|enum|__restrict|restrict)\b", " ", s)
    s = s.replace("qpOASES::", "").replace("REFER_NAMESPACE_QPOASES", "")
    s = re.sub(r"\s+", " ", s).strip()
    s = TYPEDEFS.get(s, s)
    t = Ty(s, ptr, ref, arr or None)
    _tycache[q] = t
    return t


def node_type(n):
    t = n.get("type") or {}
    q = t.get("qualType", "void")
    d = t.get("desugaredQualType")
    ty = parse_type(q)
    if d and ty.base not in INTS and ty.base not in REALS and not ty.fn and "(" not in d:
        ty2 = parse_type(d)
        return ty2
    return ty


class Func:
    def __init__(self, node, key, qual, cls):
        self.node, self.key, self.qual, self.cls = node, key, qual, cls
        self.params = [x for x in node.get("inner", []) if x.get("kind") == "ParmVarDecl"]
        self.body = next((x for x in node.get("inner", []) if x.get("kind") == "CompoundStmt"), None)
        self.inits = [x for x in node.get("inner", []) if x.get("kind") == "CXXCtorInitializer"]
        self.name = node.get("name")
        ft = (node.get("type") or {}).get("qualType", "")
        self.ret = parse_type(ft[:ft.index("(")].strip()) if "(" in ft else Ty("void")
        self.const = ft.rstrip().endswith("const")
        self.virtual = bool(node.get("virtual"))
        self.pure = bool(node.get("pure"))
        self.static = node.get("storageClass") == "static"
        self.kind = node.get("kind")
        self.line = node.get("_line")
        self.file = node.get("_file")


class Program:
    def __init__(self):
        self.funcs = {}        # mangled -> Func (definition preferred)
        self.by_qual = {}      # 'Indexlist::addNumber' -> [Func]
        self.decl = {}         # decl id -> node
        self.decl_mangled = {}  # decl id -> mangled
        self.enumval = {}      # enum const id -> int
        self.enumname = {}     # name -> int
        self.enum_of = {}      # enum name -> {const: val}
        self.classes = {}      # name -> dict(fields=[(name,Ty)], bases=[...], methods={})
        self.defaults = {}     # mangled -> {i: expr}
        self.virtual = set()   # (class, name, sig)
        self.globals = {}


def clang_dump(repo=REPO, workdir=None):
    own = workdir is None
    d = workdir or tempfile.mkdtemp(prefix="qpv_ast_")
    try:
        u = os.path.join(d, "unity.cpp")
        with open(u, "w") as f:
            for s in SOURCES:
                f.write('#include "%s/src/%s.cpp"\n' % (repo, s))
            for s in EXTRA:
                f.write('#include "%s/%s"\n' % (repo, s))
        cmd = ["clang++", "-fsyntax-only", "-w"] + CXXFLAGS + ["-I" + repo + "/include", "-I" + repo + "/interfaces/c",
               "-Xclang", "-ast-dump=json", u]
        out = os.path.join(d, "ast.json")
        with open(out, "w") as f:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise FrontendError("clang failed: " + p.stderr.decode(errors="replace")[-2000:])
        with open(out) as f:
            return json.load(f)
    finally:
        if own:
            import shutil
            shutil.rmtree(d, ignore_errors=True)


KEEP_DECLS = {"CXXMethodDecl", "FunctionDecl", "CXXConstructorDecl", "CXXDestructorDecl"}


def load(repo=REPO):
    root = clang_dump(repo)
    P = Program()
    cur = {"file": None, "line": 0}

    def upd(l):
        if not l:
            return
        if "spellingLoc" in l or "expansionLoc" in l:
            upd(l.get("spellingLoc"))
            upd(l.get("expansionLoc"))
            return
        if "file" in l:
            cur["file"] = l["file"]
        if "line" in l:
            cur["line"] = l["line"]

    decl = P.decl

    def walk(n):
        loc = n.get("loc")
        if loc:
            upd(loc)
            if "line" in loc or "file" in loc or "offset" in loc or "spellingLoc" in loc:
                n["_line"], n["_file"] = cur["line"], cur["file"]
        r = n.get("range")
        if r:
            b = r.get("begin")
            upd(b)
            n["_bl"] = cur["line"]
            upd(r.get("end"))
        k = n.get("kind", "")
        if k.endswith("Decl"):
            decl[n.get("id")] = n
        inner = n.get("inner")
        if inner:
            for x in inner:
                if x:
                    walk(x)
    sys.setrecursionlimit(20000)
    walk(root)

    parents = {}

    anon = {}

    def index(n, scope, cls, inns):
        for x in n.get("inner", []):
            if not x:
                continue
            k = x.get("kind")
            if k == "TypedefDecl":
                # typedef struct {...} T;
                st = list(x.get("inner", []))
                while st:
                    y = st.pop()
                    o = y.get("ownedTagDecl") or y.get("decl") or {}
                    if o.get("id") in anon and x["name"] not in P.classes:
                        r = anon[o["id"]]
                        P.classes[x["name"]] = dict(name=x["name"], id=o["id"], bases=[], methods=[],
                                                    fields=[(f["name"], node_type(f)) for f in r.get("inner", []) if f.get("kind") == "FieldDecl" and "name" in f])
                        parents[o["id"]] = x["name"]
                    st.extend(y.get("inner", []))
                continue
            if k == "NamespaceDecl":
                index(x, scope, None, inns or x.get("name") == "qpOASES")
            elif k == "LinkageSpecDecl":
                index(x, scope, None, True)
            elif k == "CXXRecordDecl" and x.get("completeDefinition"):
                nm = x.get("name")
                if nm is None:
                    if (x.get("_file") or "").startswith(repo):
                        anon[x["id"]] = x
                    continue
                q = (cls + "::" + nm) if cls else nm
                c = P.classes.get(q)
                own = inns or "qpOASES" in (x.get("_file") or "") or "repo" in (x.get("_file") or "")
                if own:
                    P.classes[q] = dict(
                        name=q, id=x["id"],
                        fields=[(f["name"], node_type(f)) for f in x.get("inner", []) if f.get("kind") == "FieldDecl" and "name" in f],
                        bases=[parse_type(b["type"].get("desugaredQualType", b["type"]["qualType"])).base for b in x.get("bases", [])],
                        methods=[])
                    parents[x["id"]] = q
                    index(x, scope, q, inns)
            elif k == "EnumDecl":
                v = -1
                en = {}
                for c in x.get("inner", []):
                    if c.get("kind") == "EnumConstantDecl":
                        ce = next((y for y in c.get("inner", []) if y.get("kind") in ("ConstantExpr", "ImplicitCastExpr")), None)
                        val = None
                        if ce is not None:
                            val = _const(ce)
                        v = val if val is not None else v + 1
                        P.enumval[c["id"]] = v
                        P.enumname[c["name"]] = v
                        en[c["name"]] = v
                if x.get("name"):
                    P.enum_of[x["name"]] = en
            elif k == "VarDecl" and inns:
                P.globals[x["id"]] = x
            elif k in KEEP_DECLS:
                m = x.get("mangledName")
                if not m:
                    continue
                P.decl_mangled[x["id"]] = m
                c = cls
                if c is None and x.get("parentDeclContextId") in parents:
                    c = parents[x["parentDeclContextId"]]
                for i, pd in enumerate([y for y in x.get("inner", []) if y.get("kind") == "ParmVarDecl"]):
                    ex = [y for y in pd.get("inner", []) if not y.get("kind", "").endswith("Comment")]
                    if ex and "init" in pd:
                        P.defaults.setdefault(m, {})[i] = ex[0]
                qual = (c + "::" if c else "") + x.get("name", "")
                if m in P.funcs and P.funcs[m].body is not None:
                    continue
                if not inns and not c and not (x.get("_file") or "").startswith(repo):
                    # system function: only remember the name
                    P.funcs.setdefault(m, Func(x, m, qual, c))
                    continue
                prev = P.funcs.get(m)
                f = Func(x, m, qual, c)
                if prev is not None:
                    f.virtual = f.virtual or prev.virtual
                    f.static = f.static or prev.static
                P.funcs[m] = f
    index(root, "", None, False)
    for m, f in P.funcs.items():
        P.by_qual.setdefault(f.qual, []).append(f)
        if f.cls in P.classes:
            P.classes[f.cls]["methods"].append(f)
    # fix ctors: C1/C2 mangling: clang JSON uses C1 for all
    return P


def _const(n):
    k = n.get("kind")
    if "value" in n and k in ("ConstantExpr", "IntegerLiteral"):
        try:
            return int(n["value"])
        except ValueError:
            return None
    for y in n.get("inner", []):
        v = _const(y)
        if v is not None:
            return -v if k == "UnaryOperator" and n.get("opcode") == "-" else v
    return None


def class_fields(P, cls):
    """all fields incl. inherited: [(name, Ty)]"""
    c = P.classes.get(cls)
    if c is None:
        return []
    out = []
    for b in c["bases"]:
        out += class_fields(P, b)
    return out + c["fields"]


def is_derived(P, d, b):
    if d == b:
        return True
    c = P.classes.get(d)
    return bool(c) and any(is_derived(P, x, b) for x in c["bases"])


def find_method(P, cls, name, sig):
    """most-derived override of name/sig (sig = param part of mangled type) for dynamic class cls"""
    c = P.classes.get(cls)
    if c is None:
        return None
    for f in c["methods"]:
        if f.name == name and f.node.get("type", {}).get("qualType") == sig:
            return f
    for b in c["bases"]:
        r = find_method(P, b, name, sig)
        if r is not None:
            return r
    return None
