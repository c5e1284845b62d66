"""Discharging obligations: z3 (in process, one forked worker per batch), then cvc5 and z3 4.8 as fall-backs."""
import os, sys, time, json, subprocess, tempfile, select, signal
import z3
from .sym import *
from . import hints

SPEC = {}     # name -> (FuncDecl, unfold(args)->list of facts)


def register_spec(decl, unfold):
    SPEC[decl.name()] = (decl, unfold)


LEMMAS = []   # (name, names of spec functions that must occur, axiom, [(hypotheses, goal) of its inductive proof])


def register_lemma(name, needs, axiom, proof):
    LEMMAS.append((name, frozenset(needs), axiom, proof))


def lemma_axioms(exprs, skip=None):
    """quantified lemmas about the spec functions that occur (each is proved by induction as an obligation of its own)"""
    if not LEMMAS:
        return []
    occ = set()
    for e in exprs:
        occ |= decl_names(e)
    return [a for n, needs, a, p in LEMMAS if n != skip and needs <= occ]


_dn = {}


def decl_names(e):
    r = _dn.get(e.get_id())
    if r is not None and r[0].eq(e):
        return r[1]
    out, seen, st = set(), set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                out.add(x.decl().name())
            st.extend(x.children())
    _dn[e.get_id()] = (e, out)
    return out


_ga = {}


def ground_apps1(e, names):
    key = (e.get_id(), len(names))
    r = _ga.get(key)
    if r is not None and r[0].eq(e):
        return r[1]
    seen, out = set(), {}
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            ch = x.children()
            stack.extend(ch)
            if ch and x.decl().name() in names:
                out[i] = x
    res = [x for x in out.values() if not has_var(x)]
    _ga[key] = (e, res)
    return res


def ground_apps(exprs, names):
    out = {}
    for e in exprs:
        for x in ground_apps1(e, names):
            out[x.get_id()] = x
    return list(out.values())


_hv = {}


def has_var(e):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_var(x):
            return True
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def skolemize(goal, hyps, n=0):
    """strip outer foralls / implications of the goal"""
    while True:
        if z3.is_quantifier(goal) and goal.is_forall():
            vs = [z3.FreshConst(goal.var_sort(i), "sk") for i in range(goal.num_vars())]
            goal = z3.substitute_vars(goal.body(), *reversed(vs))
        elif z3.is_implies(goal):
            hyps.append(goal.arg(0))
            goal = goal.arg(1)
        else:
            return goal


_un = {}


def used_names(exprs):
    if len(exprs) != 1:
        out = set()
        for e in exprs:
            out |= used_names([e])
        return out
    e = exprs[0]
    r = _un.get(e.get_id())
    if r is not None and r[0].eq(e):
        return r[1]
    out = used_names1([e])
    _un[e.get_id()] = (e, out)
    return out


def used_names1(exprs):
    out = set()
    seen = set()
    st = list(exprs)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    return out


def build(ex, o, goal0):
    hyps = imul_axioms() + rmul_axioms() + list(ex.env.facts) + ex.facts[:o.nfacts] + list(o.pc)
    extra = []
    goal = skolemize(goal0, extra)
    hyps += extra
    seeds = extra + list(o.pc)
    if SPEC:
        names = set(SPEC)
        done = set()
        pool = hyps + [goal]
        for rnd in range(3):
            apps = ground_apps(pool, names)
            new = []
            for a in apps:
                if a.get_id() in done:
                    continue
                done.add(a.get_id())
                new += SPEC[a.decl().name()][1](*a.children(), depth=rnd)
            if not new:
                break
            hyps += new
            pool = new
        if not getattr(o, "islemma", False):
            hyps += lemma_axioms(hyps + [goal])
    return hyps, goal, seeds


def relevant(hyps, goal, seeds=()):
    """drop hypotheses not connected with the goal (by shared constants), keeping soundness"""
    sets = [used_names([h]) for h in hyps]
    rel = set(used_names([goal] + list(seeds)))
    keep = [False] * len(hyps)
    ch = True
    while ch:
        ch = False
        for i, s in enumerate(sets):
            if not keep[i] and (not s or s & rel):
                keep[i] = True
                if not s <= rel:
                    rel |= s
                ch = True
    return [h for h, k in zip(hyps, keep) if k]


def z3_try(hyps, goal, ms, opts=(), shared=False):
    """in a context of its own, so that the outcome depends on the formula only and not on what was proved before it"""
    if shared:
        s = z3.Solver()
        s.set("timeout", ms)
        for k, v in opts:
            s.set(k, v)
        s.add(*hyps)
        s.add(z3.Not(goal))
        try:
            return str(s.check()), s
        except z3.Z3Exception:
            return "unknown", s
    ctx = z3.Context()
    d = dict(opts)
    s = z3.Solver(ctx=ctx)
    s.set("timeout", ms)
    for k, v in opts:
        s.set(k, v)
    for h in hyps:
        s.add(h.translate(ctx))
    s.add(z3.Not(goal).translate(ctx))
    try:
        r = s.check()
    except z3.Z3Exception as e:
        return "unknown", s
    return str(r), s


def ext(cmd, smt, secs):
    try:
        p = subprocess.run(cmd, input=smt.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=secs + 2)
        out = p.stdout.decode(errors="replace").strip().split("\n")[0]
        return out if out in ("sat", "unsat") else "unknown"
    except (subprocess.TimeoutExpired, OSError):
        return "unknown"


def split_goal(g):
    """conjuncts of a goal, looking through outer foralls and implications"""
    hy = []
    g = skolemize(g, hy)
    if z3.is_and(g):
        out = []
        for c in g.children():
            for x in split_goal(c):
                out.append(Implies(And(hy), x))
        return out
    return [Implies(And(hy), g)]


def discharge(ex, o, budget_ms=8000):
    t = time.time()
    goals = split_goal(o.goal)
    bys = set()
    hs = {}
    for i, g in enumerate(goals):
        r = discharge1(ex, o, g, budget_ms, 0, "%s#%d" % (o.name, i))
        hs.update(r.get("hints", {}))
        if r["res"] != "proved":
            r["t"] = time.time() - t
            r["hints"] = hs
            return r
        bys.add(r["by"])
    return dict(name=o.name, kind=o.kind, line=o.line, res="proved", by="+".join(sorted(bys)) or "simplify", t=time.time() - t, hints=hs)


MKHINTS = None      # set by tools/mkhints.py: obligations that took longer than this get a hint


def array_ite(g):
    """the first array-valued if-then-else in a goal"""
    st, seen = [g], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE and z3.is_array(x):
                return x
            st.extend(x.children())
    return None


def array_names(e):
    out, seen, st = set(), set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and z3.is_array(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    return out


def sliced(hyps, goal):
    """without the hypotheses about array contents of other loops"""
    ga = array_names(goal)
    return [h for h in hyps if not any(x.startswith("harr") for x in array_names(h) - ga)]


NL = {}


def nonlinear(e):
    """does the formula multiply two non-constant terms, or divide by one?"""
    k = e.get_id()
    if k in NL and NL[k][0].eq(e):
        return NL[k][1]
    st, seen, r = [e], set(), False
    while st and not r:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            kd = x.decl().kind()
            if kd == z3.Z3_OP_MUL and sum(0 if z3.is_rational_value(a) or z3.is_int_value(a) else 1 for a in x.children()) > 1:
                r = True
            elif kd == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)):
                r = True
            st.extend(x.children())
    NL[k] = (e, r)
    return r


def linear(hyps, goal):
    """for a linear goal: without the quantified nonlinear hypotheses"""
    if nonlinear(goal):
        return hyps
    return [h for h in hyps if not nonlinear(h)]


def discharge1(ex, o, goal0, budget_ms, depth=0, key=""):
    t = time.time()
    hyps, goal, seeds = build(ex, o, goal0)
    if z3.is_true(z3.simplify(goal)):
        return dict(name=o.name, kind=o.kind, line=o.line, res="proved", by="simplify", t=time.time() - t)
    model = None
    hyps_all = hyps
    hyps = relevant(hyps, goal, seeds)
    final = "unknown"
    nomb = (("smt.mbqi", False),)
    cid = getattr(ex, "con_id", "")

    def tz(hy, g, ms, seed):
        return z3_try(hy, g, ms, hints.opts(seed))[0] == "unsat"

    def tc(hy, g, secs):
        s = z3.Solver()
        s.add(*hy)
        s.add(z3.Not(g))
        return ext(["cvc5", "--tlimit=%d" % (secs * 1000), "--lang=smt2"], "(set-logic ALL)\n" + s.to_smt2(), secs) == "unsat"

    used = [hyps]

    def done(by, hinted=False):
        el = time.time() - t
        d = dict(name=o.name, kind=o.kind, line=o.line, res="proved", by=by, t=el)
        if MKHINTS is not None:
            if hinted:
                d["hints"] = {key: hinted}
            elif el > MKHINTS and by != "simplify":
                h = hints.find(used[0], goal, tz, tc)
                if h:
                    d["hints"] = {key: h}
        return d

    if z3_try(hyps, goal, 250, nomb, shared=True)[0] == "unsat":
        return done("z3-5.3.2")
    for sub, by, seed in hints.subsets(cid, key, hyps):
        for sd in ((seed, 5, 9) if by == "z" else (0,)):
            if tz(sub, goal, 2500, sd) if by == "z" else tc(sub, goal, 8):
                return done("z3-5.3.2" if by == "z" else "cvc5-1.1.2", dict(by=by, s=sd, fp=sorted({hints.fp(h) for h in sub})))
    hyps_s = sliced(hyps, goal)
    hyps_l = linear(hyps_s, goal)
    plan = [("z", nomb, min(700, budget_ms // 4))] + ([("l", nomb, budget_ms // 3)] if len(hyps_l) < len(hyps_s) else []) + ([("s", nomb, budget_ms // 3)] if len(hyps_s) < len(hyps) else []) + [("c", None, 2), ("s", nomb + (("smt.random_seed", 11),), budget_ms // 3 if len(hyps_s) < len(hyps) else 1), ("z", nomb, budget_ms // 3), ("z", (), budget_ms // 4),
            ("z", (("smt.arith.solver", 2), ("smt.mbqi", False)), budget_ms // 4), ("c", None, max(3, budget_ms // 1000)), ("o", None, max(2, budget_ms // 1000))]
    smt, split = None, False
    for kind, opts, lim in plan:
        if kind in "sl":
            r, s = z3_try(hyps_s if kind == "s" else hyps_l, goal, lim, opts)
            if r == "unsat":
                used[0] = hyps_s if kind == "s" else hyps_l
                return done("z3-5.3.2")
            continue
        if kind == "z":
            r, s = z3_try(hyps, goal, lim, opts)
            if r == "unsat":
                return done("z3-5.3.2")
            if r != "sat" and depth < 4 and not split:
                split = True
                extra = []
                g = skolemize(goal0, extra)
                it = array_ite(g)
                if it is not None:
                    c, a, b = it.children()
                    bys, bys_, hs = set(), [], {}
                    for cc, br in ((c, a), (z3.Not(c), b)):
                        r2 = discharge1(ex, o, z3.Implies(z3.And(cc, *extra), z3.substitute(g, (it, br))), budget_ms, depth + 1, "%s/%d" % (key, len(bys_)))
                        bys_.append(1)
                        hs.update(r2.get("hints", {}))
                        if r2["res"] != "proved":
                            r2["t"] = time.time() - t
                            return r2
                        bys.add(r2["by"])
                    d = dict(name=o.name, kind=o.kind, line=o.line, res="proved", by="+".join(sorted(bys)), t=time.time() - t)
                    d["hints"] = hs
                    return d
            if r == "sat":
                final = "sat"
                try:
                    m = s.model()
                    model = {str(d): str(m[d])[:200] for d in m.decls() if d.arity() == 0}
                except z3.Z3Exception:
                    pass
                break
            continue
        if smt is None:
            s = z3.Solver()
            s.add(*hyps)
            s.add(z3.Not(goal))
            smt = s.to_smt2()
        if kind == "c":
            r = ext(["cvc5", "--tlimit=%d" % (lim * 1000), "--lang=smt2"], "(set-logic ALL)\n" + smt, lim)
            if r == "unsat":
                return done("cvc5-1.1.2")
        else:
            r = ext(["z3", "-T:%d" % lim, "-in"], smt, lim)
            if r == "unsat":
                return done("z3-4.8.12")
        if r == "sat":
            final = "sat"
            break
    return dict(name=o.name, kind=o.kind, line=o.line, res="failed", why=final, t=time.time() - t, model=model,
                goal=str(z3.simplify(goal))[:1500])


def vacuity(ex, cov, ms=3000):
    nm, nf, pc = cov
    s = z3.Solver()
    s.set("timeout", ms)
    s.add(*imul_axioms())
    s.add(*rmul_axioms())
    s.add(*ex.env.facts)
    s.add(*ex.facts[:nf])
    s.add(*pc)
    try:
        return nm, str(s.check())
    except z3.Z3Exception:
        return nm, "unknown"
