"""Runs the verifier over a set of contracts and returns a report."""
import os, sys, time, json, traceback, pickle
import multiprocessing as mp
import z3
from . import frontend as F
from .execu import Executor, Registry
from .sym import Unsupported
from . import solve

_P = None
_R = None
_deadline = 1e18
_retry = False


class LemmaEx:
    """obligations of an inductive lemma about specification functions (no program code involved)"""
    def __init__(self, con):
        from .execu import Obl
        self.env = type("E", (), dict(facts=[]))()
        self.facts, self.covers, self.nreturns, self.assumptions = [], [], 0, set()
        self.used_contracts, self.inlined, self.loop_unbound, self.autoinv = set(), set(), [], 0
        self.obls = []
        for i, (h, g) in enumerate(con.lemma):
            o = Obl("%s:%s" % (con.qual, ("base", "step")[i] if len(con.lemma) == 2 else i), "lemma", 0, 0, tuple(h), g)
            o.islemma = True
            self.obls.append(o)


class NoFunc:
    file, line = "contracts", 0


def gen(P, R, con):
    for cls, f in R.ghosts:
        fl = P.classes[cls]["fields"] if cls in P.classes else []
        if all(n != f for n, _ in fl):
            fl.append((f, F.Ty("long")))
    if con.lemma is not None:
        from .sym import FLAGS
        FLAGS["rmul"] = False
        ex = LemmaEx(con)
        ex.con_id = con.id
        return ex, NoFunc
    funcs = [f for f in P.by_qual.get(con.qual, []) if f.body is not None and (con.sig is None or con.sig in f.node["type"]["qualType"])]
    if not funcs:
        raise Unsupported("function %s%s not found in the current source" % (con.qual, "" if not con.sig else " [" + con.sig + "]"))
    if len(funcs) > 1:
        raise Unsupported("%s is ambiguous: %s" % (con.id, [f.node["type"]["qualType"] for f in funcs]))
    ex = Executor(P, R)
    ex.con_id = con.id
    ex.verify(con, funcs[0])
    return ex, funcs[0]


def dis1(ex, o, budget):
    if time.time() > _deadline:
        return dict(name=o.name, kind=o.kind, line=o.line, res="failed", why="time limit of the check reached before this obligation", t=0, model=None, goal="")
    try:
        return solve.discharge(ex, o, budget)
    except Exception as e:
        return dict(name=o.name, kind=o.kind, line=o.line, res="failed", why="solver interface: %s %s" % (type(e).__name__, str(e)[:300]), t=0, model=None, goal="")


def chunk_discharge(ex, obls, budget, nproc):
    if nproc <= 1 or len(obls) < 4:
        return [dis1(ex, o, budget) for o in obls]
    res = [None] * len(obls)
    pids = []
    for w in range(nproc):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                out = []
                for i in range(w, len(obls), nproc):
                    out.append((i, dis1(ex, obls[i], budget)))
                with os.fdopen(wfd, "w") as f:
                    json.dump(out, f)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(wfd)
        pids.append((pid, r))
    for pid, r in pids:
        with os.fdopen(r) as f:
            s = f.read()
        os.waitpid(pid, 0)
        if s:
            for i, d in json.loads(s):
                res[i] = d
    for i, d in enumerate(res):
        if d is None:
            res[i] = dict(name=obls[i].name, kind=obls[i].kind, line=obls[i].line, res="failed", why="worker died", t=0, model=None, goal="")
    return res


def run_one(args):
    idx, budget, nproc = args
    con = _R.contracts[idx]
    t = time.time()
    rep = dict(id=con.id, qual=con.qual)
    try:
        sys.setrecursionlimit(50000)
        ex, f = gen(_P, _R, con)
    except Unsupported as e:
        rep.update(status="unsupported", why=str(e), wall=time.time() - t)
        return rep
    except RecursionError:
        rep.update(status="unsupported", why="recursion limit", wall=time.time() - t)
        return rep
    except Exception as e:
        rep.update(status="unsupported", why="internal: %s: %s" % (type(e).__name__, e), wall=time.time() - t,
                   tb=traceback.format_exc())
        return rep
    tg = time.time() - t
    budget = con.timeout or budget
    res = chunk_discharge(ex, ex.obls, budget, nproc)
    bad = [i for i, o in enumerate(res) if o["res"] != "proved" and o.get("why") != "sat"]
    if _retry and bad:
        # a solver may have been unlucky: try the first few again with more time before reporting
        sub = bad[:4]
        for i, d in zip(sub, chunk_discharge(ex, [ex.obls[i] for i in sub], budget * 4, max(nproc, 4))):
            d["retried"] = True
            res[i] = d
        if all(res[i]["res"] == "proved" for i in sub) and bad[4:]:
            for i, d in zip(bad[4:], chunk_discharge(ex, [ex.obls[i] for i in bad[4:]], budget * 4, nproc)):
                d["retried"] = True
                res[i] = d
    cov = [solve.vacuity(ex, c) for c in ex.covers if c[0] == "entry"]
    rets = [solve.vacuity(ex, c, 1500) for c in ex.covers if c[0].startswith("return")]
    vac = [n for n, r in cov if r == "unsat"]
    if rets and all(r == "unsat" for n, r in rets):
        vac.append("no return reachable")
    rep.update(status="ok", obls=res, ngen=tg, vac=vac, file=f.file, line=f.line, returns=ex.nreturns,
               trivial=getattr(ex, "trivial", 0),
               assumptions=sorted(ex.assumptions), used=sorted(ex.used_contracts), inlined=sorted(ex.inlined),
               unbound=ex.loop_unbound, autoinv=ex.autoinv, wall=time.time() - t,
               dead_returns=[n for n, r in rets if r == "unsat"])
    return rep


def run(P, R, ids=None, budget=8000, procs=8, deadline=None, retry=False):
    global _P, _R, _deadline, _retry
    _P, _R = P, R
    _deadline, _retry = deadline or 1e18, retry
    idxs = [i for i, c in enumerate(R.contracts) if not c.trusted and not c.only_call and (ids is None or c.id in ids)]
    nproc = max(1, min(8, procs // max(1, len(idxs)))) if len(idxs) < procs else 2
    ctx = mp.get_context("fork")
    from concurrent.futures import ProcessPoolExecutor
    with ProcessPoolExecutor(min(procs, max(1, len(idxs))), mp_context=ctx) as pool:
        out = list(pool.map(run_one, [(i, budget, nproc) for i in idxs]))
    return out


def summarize(rep, out=sys.stdout, verbose=False):
    for r in rep:
        if r["status"] != "ok":
            print("UNSUPPORTED %-45s %s" % (r["id"], r["why"]), file=out)
            if verbose and "tb" in r:
                print(r["tb"], file=out)
            continue
        ok = sum(o["res"] == "proved" for o in r["obls"])
        print("%-50s %3d/%3d  gen %.1fs wall %.1fs  %s%s%s" % (r["id"], ok, len(r["obls"]), r["ngen"], r["wall"],
              "VACUOUS %s " % r["vac"] if r["vac"] else "", "unbound %s " % r["unbound"] if r["unbound"] else "",
              "auto %s" % r["autoinv"] if verbose else ""), file=out)
        if os.environ.get("SLOW"):
            for o in sorted(r["obls"], key=lambda o: -o["t"])[:12]:
                print("      %.1fs %s %s" % (o["t"], o["name"], o.get("by")), file=out)
        for o in r["obls"]:
            if o["res"] != "proved":
                print("    FAILED %s (line %s) %s %.1fs" % (o["name"], o["line"], o["why"], o["t"]), file=out)
                if verbose:
                    print("        goal:", o["goal"][:600], file=out)
                    if o.get("model"):
                        print("        model:", {k: v for k, v in list(o["model"].items())[:40]}, file=out)
