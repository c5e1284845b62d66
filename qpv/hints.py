"""Proof hints: which hypotheses an earlier proof of an obligation used.  A hint only selects a subset of the
hypotheses that are generated from the current source (matched by a fingerprint of their shape); the solver still has
to prove the obligation from them, so a stale hint can cost time but never accept anything."""
import os, json, re, hashlib, subprocess
import z3

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "hints")
_fp = {}
_norm = {}


def norm(s):
    r = _norm.get(s)
    if r is None:
        r = _norm[s] = re.sub(r"!\d+", "!", s)
    return r


def fp(e):
    """fingerprint of a formula, up to the counters in generated names"""
    memo = _fp
    st = [e]
    while st:
        x = st[-1]
        i = x.get_id()
        r = memo.get(i)
        if r is not None and r[0].eq(x):
            st.pop()
            continue
        ch = [x.body()] if z3.is_quantifier(x) else x.children() if z3.is_app(x) else []
        todo = []
        for c in ch:
            r = memo.get(c.get_id())
            if r is None or not r[0].eq(c):
                todo.append(c)
        if todo:
            st.extend(todo)
            continue
        if z3.is_var(x):
            h = "v%d" % z3.get_var_index(x)
        elif z3.is_quantifier(x):
            h = "q%d%s%s" % (x.num_vars(), x.is_forall(), memo[ch[0].get_id()][1])
        else:
            d = x.decl()
            h = norm(str(x)) if not ch else d.name() if d.kind() != z3.Z3_OP_UNINTERPRETED else norm(d.name())
            if ch:
                hs = [memo[c.get_id()][1] for c in ch]
                if d.kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_EQ, z3.Z3_OP_IFF):
                    hs.sort()
                h += "(" + ",".join(hs) + ")"
        memo[i] = (x, hashlib.md5(h.encode()).hexdigest()[:10])
        st.pop()
    return memo[e.get_id()][1]


_loaded = {}


def path(cid):
    return os.path.join(DIR, re.sub(r"[^A-Za-z0-9_]+", "_", cid)[:90] + "_" + hashlib.md5(cid.encode()).hexdigest()[:6] + ".json")


def load(cid):
    if cid not in _loaded:
        d = None
        if not os.environ.get("QPV_NOHINTS") and os.path.exists(path(cid)):
            d = json.load(open(path(cid)))
            d["known"] = set(d["known"])
            loose = {}
            for k, v in d["o"].items():
                loose.setdefault(strip(k), []).append(v)
            d["loose"] = loose
        _loaded[cid] = d
    return _loaded[cid]


def strip(k):
    return re.sub(r"@ret\d+|#[\d/]*$", "", k)


def subsets(cid, key, hyps):
    """candidate hypothesis sets for an obligation: (hyps, back end, seed)"""
    d = load(cid)
    if not d:
        return []
    cands = [d["o"][key]] if key in d["o"] else []
    cands += [c for c in d["loose"].get(strip(key), []) if c not in cands][:0 if cands else 3]
    if not cands:
        return []
    fs = [fp(h) for h in hyps]
    out = []
    for c in cands:
        core = set(c["fp"])
        a = [h for h, f in zip(hyps, fs) if f in core]
        b = [h for h, f in zip(hyps, fs) if f in core or f not in d["known"]]
        if len(core & set(fs)) == len(core):
            out.append((a, c["by"], c["s"]))
        if len(b) > len(a) or not out:
            out.append((b, c["by"], c["s"]))
    return out


def opts(seed):
    """solver options behind a strategy number"""
    if seed >= 100:
        return (("smt.arith.solver", 2), ("smt.mbqi", False), ("smt.random_seed", seed - 100))
    return (("smt.mbqi", False), ("smt.random_seed", seed))


def z3_core(hyps, goal, ms, seed):
    ctx = z3.Context()
    s = z3.Solver(ctx=ctx)
    s.set("timeout", ms)
    for k, v in opts(seed):
        s.set(k, v)
    names = {}
    for i, h in enumerate(hyps):
        s.assert_and_track(h.translate(ctx), z3.Bool("hyp!%d" % i, ctx))
    s.add(z3.Not(goal).translate(ctx))
    try:
        if s.check() != z3.unsat:
            return None
    except z3.Z3Exception:
        return None
    return [hyps[int(str(c).split("!")[1])] for c in s.unsat_core()]


def cvc5_core(hyps, goal, secs):
    s = z3.Solver()
    for i, h in enumerate(hyps):
        s.assert_and_track(h, z3.Bool("hyp!%d" % i))
    s.add(z3.Not(goal))
    # assert_and_track prints as (=> hyp!i h); name the hypotheses by assuming the tracking constants
    smt = s.to_smt2().replace("(check-sat)", "")
    smt += "\n(check-sat-assuming (%s))\n(get-unsat-assumptions)\n" % " ".join("hyp!%d" % i for i in range(len(hyps)))
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % (secs * 1000), "--lang=smt2", "--produce-unsat-assumptions"], input=("(set-logic ALL)\n" + smt).encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=secs + 3)
    except subprocess.TimeoutExpired:
        return None
    out = p.stdout.decode(errors="replace")
    if not out.startswith("unsat"):
        return None
    ids = {int(x) for x in re.findall(r"hyp!(\d+)", out)}
    return [hyps[i] for i in sorted(ids)]


def find(hyps, goal, try_z3, try_cvc5):
    """a small set of hypotheses from which the goal is proved quickly"""
    cur, good = hyps, None
    for rnd in range(5):
        core = None
        for seed in (0, 3, 11, 100, 103):
            core = z3_core(cur, goal, 12000 if good is None else 4000, seed)
            if core is not None:
                break
        if core is None:
            core = cvc5_core(cur, goal, 15 if good is None else 6)
        if core is None or (good is not None and len(core) >= len(cur)):
            break
        cur = core
        ok = None
        for seed in (0, 3, 11, 100, 103):
            if try_z3(cur, goal, 2500, seed):
                ok = ("z", seed)
                break
        if ok is None and try_cvc5(cur, goal, 4):
            ok = ("c", 0)
        if ok:
            good = dict(by=ok[0], s=ok[1], fp=sorted({fp(h) for h in cur}))
        elif good is not None:
            break
    return good
