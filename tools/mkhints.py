#!/usr/bin/env python3-vt
"""mkhints.py <props|module:ids> [threshold]: records proof hints for the obligations that are slow to prove."""
import sys, os, importlib, time, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(50000)
from qpv import frontend as F, driver, solve, hints
from qpv.execu import Registry
from props import PROPS
P = F.load("/repo")
th = float(sys.argv[2]) if len(sys.argv) > 2 else 0.6
solve.MKHINTS = th
os.makedirs(hints.DIR, exist_ok=True)
R0 = None


def known(args):
    con = driver._R.contracts[args]
    ex, f = driver.gen(driver._P, driver._R, con)
    fs = set()
    for h in list(ex.env.facts) + list(ex.facts):
        fs.add(hints.fp(h))
    for o in ex.obls:
        for h in o.pc:
            fs.add(hints.fp(h))
    for o in ex.obls:
        for g in solve.split_goal(o.goal)[:1]:
            hy, goal, seeds = solve.build(ex, o, g)
            for h in hy:
                fs.add(hints.fp(h))
    return sorted(fs)


for prop in sys.argv[1].split(","):
    R = Registry()
    if ":" in prop:
        mods, sub = prop.split(":", 1)
        for m in mods.split("+"):
            importlib.import_module("contracts." + m).setup(R)
        ids = {c.id for c in R.contracts if not c.trusted and not c.only_call and (not sub or sub in c.id)}
    else:
        spec = PROPS[prop]
        for m in spec["modules"]:
            importlib.import_module("contracts." + m).setup(R)
        ids = {c.id for c in R.contracts if not c.trusted and not c.only_call and any(c.id.startswith(p) for p in spec["ids"]) and not any(c.id.startswith(p) for p in spec.get("not_ids", []))}
    t = time.time()
    rep = driver.run(P, R, ids, budget=int(os.environ.get("BUDGET", "30000")), retry=False)
    driver._P, driver._R = P, R
    import multiprocessing as mp
    todo = []
    for r in rep:
        if r["status"] != "ok":
            print("unsupported", r["id"], r["why"])
            continue
        o = {}
        for x in r["obls"]:
            o.update(x.get("hints") or {})
            if x["res"] != "proved":
                print("not proved", r["id"], x["name"], "%.0f" % x["t"])
            elif x["t"] > 5 and not x.get("hints"):
                print("slow, no hint", r["id"], x["name"], "%.0f" % x["t"])
        old = None if os.environ.get("FRESH") else hints.load(r["id"])
        if old:
            names = {x["name"] for x in r["obls"]}
            for k, v in old["o"].items():
                if k.rsplit("#", 1)[0] in names and k not in o:
                    o[k] = v
        todo.append((r["id"], o))
    todo2 = []
    for cid, o in todo:
        if not o:
            if os.path.exists(hints.path(cid)):
                os.unlink(hints.path(cid))
        else:
            todo2.append((cid, o))
    idx = {c.id: i for i, c in enumerate(R.contracts)}
    with mp.get_context("fork").Pool(8) as pool:
        ks = pool.map(known, [idx[c] for c, o in todo2], chunksize=1)
    for (cid, o), k in zip(todo2, ks):
        with open(hints.path(cid), "w") as f:
            json.dump(dict(id=cid, o=o, known=k), f, indent=0, sort_keys=True)
    print(prop, len(todo2), "files", sum(len(o) for c, o in todo2), "hints %.0f s" % (time.time() - t), flush=True)
