"""C14: options (class Options, C interface presets, QProblemB::setOptions)."""
from qpv.dsl import *
from qpv.sym import class_fields

EPS = z3.RealVal("2.221e-16")


def rv(s):
    return z3.RealVal(s)


# documented default values
DEFAULT = dict(enableRamping=1, enableFarBounds=1, enableFlippingBounds=1, enableRegularisation=0, enableFullLITests=0, enableNZCTests=1,
               enableDriftCorrection=1, enableCholeskyRefactorisation=0, enableEqualities=0, terminationTolerance=rv("5e6") * EPS,
               boundTolerance=rv("1e6") * EPS, boundRelaxation=rv("1e4"), epsNum=rv("-1e3") * EPS, epsDen=rv("1e3") * EPS, maxPrimalJump=rv("1e8"),
               maxDualJump=rv("1e8"), initialRamping=rv("0.5"), finalRamping=rv("1"), initialFarBounds=rv("1e6"), growFarBounds=rv("1e3"),
               initialStatusBounds="ST_LOWER", epsFlipping=rv("1e3") * EPS, numRegularisationSteps=0, epsRegularisation=rv("1e3") * EPS,
               numRefinementSteps=1, epsIterRef=rv("1e2") * EPS, epsLITests=rv("1e5") * EPS, epsNZCTests=rv("3e3") * EPS,
               enableDropInfeasibles=0, dropBoundPriority=1, dropEqConPriority=1, dropIneqConPriority=1, enableInertiaCorrection=1, rcondSMin=rv("1e-14"),
               printLevel="PL_MEDIUM")
RELIABLE = dict(DEFAULT, enableFullLITests=1, enableCholeskyRefactorisation=1, numRefinementSteps=2)
MPC = dict(DEFAULT, enableRamping=0, enableFlippingBounds=0, enableRegularisation=1, enableNZCTests=0, enableDriftCorrection=0, enableEqualities=1,
           terminationTolerance=rv("1e9") * EPS, initialStatusBounds="ST_INACTIVE", numRegularisationSteps=1, numRefinementSteps=0)


def val(c, x):
    return z3.IntVal(c.E[x]) if isinstance(x, str) else (z3.IntVal(x) if isinstance(x, int) else x)


def fields(c, cls="Options"):
    return [f for f, ty in class_fields(c.P, cls)]


def equals(c, o, table):
    out = []
    for f in fields(c):
        if f not in table:
            out.append(("undocumented-option-" + f, z3.BoolVal(False)))
        else:
            out.append((f, getattr(o, f) == val(c, table[f])))
    return out


def same(c, a, b, but=()):
    return [("same-" + f, getattr(a, f) == getattr(b, f)) for f in fields(c) if f not in but]


def adjusted(c, o):
    """field -> (is invalid, value it is replaced by)"""
    z, r0 = z3.IntVal(0), rv("0")
    relax = If(o.boundRelaxation <= 0, EPS, o.boundRelaxation)
    d = {}
    for f in ("enableDriftCorrection", "enableCholeskyRefactorisation", "numRegularisationSteps", "numRefinementSteps"):
        d[f] = (getattr(o, f) < 0, z)
    for f in ("terminationTolerance", "epsIterRef", "epsRegularisation", "boundTolerance", "boundRelaxation", "maxPrimalJump", "maxDualJump", "epsFlipping"):
        d[f] = (getattr(o, f) <= 0, EPS)
    for f in ("initialRamping", "finalRamping"):
        d[f] = (getattr(o, f) < 0, r0)
    d["initialFarBounds"] = (o.initialFarBounds <= relax, relax * (1 + EPS) + EPS)
    d["growFarBounds"] = (o.growFarBounds < rv("1.1"), rv("1.1"))
    for f in ("epsLITests", "epsNZCTests"):
        d[f] = (getattr(o, f) < 0, EPS)
    return d


def consistent_post(c, o, n, but=()):
    d = adjusted(c, o)
    out = []
    for f in fields(c):
        if f in but:
            continue
        x = getattr(o, f)
        out.append((f, getattr(n, f) == (If(d[f][0], d[f][1], x) if f in d else x)))
    return out


def setup(R):
    me = lambda c: [mprefix(c.old.this)]
    R.add("Options::setToDefault", only_variant=True, modifies=me, ensures=lambda c: [("code", c.ret == 0)] + equals(c, c.new.this, DEFAULT))
    R.add("Options::setToReliable", only_variant=True, modifies=me, ensures=lambda c: [("code", c.ret == 0)] + equals(c, c.new.this, RELIABLE))
    R.add("Options::setToMPC", only_variant=True, modifies=me, ensures=lambda c: [("code", c.ret == 0)] + equals(c, c.new.this, MPC))
    R.add("Options::setToFast", only_variant=True, modifies=me, ensures=lambda c: [("code", c.ret == 0)] + equals(c, c.new.this, MPC))
    R.add("Options::Options", sig="void ()", variant="default", only_variant=True, modifies=me, ensures=lambda c: equals(c, c.new.this, DEFAULT))
    R.add("Options::Options", sig="void (const Options &)", variant="copy", only_variant=True, modifies=me, ensures=lambda c: same(c, c.new.this, c.old.argi(0)))
    R.add("Options::operator=", only_variant=True, modifies=me, ensures=lambda c: same(c, c.new.this, c.old.argi(0)))
    R.add("Options::ensureConsistency", only_variant=True, modifies=me,
          ensures=lambda c: [("code", c.ret == If(Or([b for b, v in adjusted(c, c.old.this).values()]), z3.IntVal(c.E["RET_OPTIONS_ADJUSTED"]), z3.IntVal(0)))]
          + consistent_post(c, c.old.this, c.new.this)
          + [("idempotent", Not(Or([b for b, v in adjusted(c, c.new.this).values()])))])
    R.add("QProblemB::setOptions", only_variant=True, modifies=lambda c: [mprefix(c.old.this.options), mfield(c.old.this, "ramp0"), mfield(c.old.this, "ramp1")],
          ensures=lambda c: [("code", c.ret == 0), ("ramp", And(c.new.this.ramp0 == c.new.this.options.initialRamping, c.new.this.ramp1 == c.new.this.options.finalRamping))] + consistent_post(c, c.old.argi(0), c.new.this.options))
    R.add("QProblemB::setPrintLevel", only_variant=True, modifies=lambda c: [mfield(c.old.this.options, "printLevel")],
          ensures=lambda c: [("code", c.ret == 0), ("level", c.new.this.options.printLevel == c.old.argi(0))])
    R.add("QProblemB::getPrintLevel", only_variant=True, pure=True, ensures=lambda c: [("value", c.ret == c.old.this.options.printLevel)])

    # C interface
    def cinit(c):
        o, m = c.new.argi(0), c.old.argi(1)
        ok = And(m >= 0, m <= 2, Not(o.null))
        out = [("code", c.ret == If(ok, z3.IntVal(0), z3.IntVal(-1)))]
        for k, t in ((0, DEFAULT), (1, RELIABLE), (2, MPC)):
            for f, ty in class_fields(c.P, "qpOASES_Options"):
                if f == "printResiduals":   # no counterpart in the C++ options
                    continue
                if f not in t:
                    out.append(("undocumented-option-" + f, z3.BoolVal(False)))
                else:
                    out.append(("mode%d-%s" % (k, f), Implies(And(ok, m == k), getattr(o.obj, f) == val(c, t[f]))))
        return out
    R.add("qpOASES_Options_init", only_variant=True, ensures=cinit, modifies=lambda c: [mprefix(c.old.argi(0).obj)])

    def ccopy(c):
        fr, to = c.old.argi(0), c.new.argi(1)
        ok = And(Not(fr.null), Not(to.null))
        cf = [f for f, ty in class_fields(c.P, "qpOASES_Options")]
        out = [("code", c.ret == If(ok, z3.IntVal(0), z3.IntVal(-1)))]
        for f in fields(c):
            if f in cf:
                out.append((f, Implies(ok, getattr(to.obj, f) == getattr(fr.obj, f))))
            else:
                out.append(("missing-in-C-" + f, z3.BoolVal(False)))
        return out
    R.add("qpOASES_Options_copy", only_variant=True, ensures=ccopy, modifies=lambda c: [mprefix(c.old.argi(1).obj)])
    return R
