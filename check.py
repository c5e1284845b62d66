#!/usr/bin/env python3-vt
"""check.py <property>: proves the contracts of the property on /repo's current source and runs its replay harness."""
import sys, os, json, time, importlib, subprocess, threading, tempfile, shutil, re, glob
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(50000)
REPO = os.environ.get("QPV_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
from props import PROPS

CXXFLAGS = ["-std=c++14", "-w", "-O1", "-g", "-fno-access-control", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
            "-DLINUX", "-D__USE_LONG_INTEGERS__", "-D__USE_LONG_FINTS__", "-DSOLVER_NONE", "-D__NO_COPYRIGHT__"]


class Harness(threading.Thread):
    """compiles the harness with the library sources of /repo (ASan+UBSan) and runs it"""
    def __init__(self, prop, spec):
        super().__init__(daemon=True)
        self.prop, self.spec = prop, spec
        self.res = dict(status="none")
        self.tmp = tempfile.mkdtemp(prefix="qpvh_")

    def run(self):
        try:
            self.res = self._run()
        except Exception as e:
            self.res = dict(status="error", why=repr(e))
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def _run(self):
        t0 = time.time()
        inc = ["-I", REPO + "/include", "-I", HERE + "/harness"] + ["-I" + os.path.join(REPO, d) for d in self.spec.get("inc", [])] + ["-D" + d for d in self.spec.get("defs", [])]
        srcs = sorted(glob.glob(REPO + "/src/*.cpp"))
        extra = [os.path.join(REPO, s) for s in self.spec.get("extra_src", [])]
        main = os.path.join(HERE, "harness", self.spec["harness"])
        jobs = []
        for s in srcs + extra + [main]:
            o = os.path.join(self.tmp, os.path.basename(s) + ".o")
            f = [x for x in CXXFLAGS if not x.startswith("-fsanitize=")] + ["-fsanitize=address,undefined"]
            jobs.append((s, o, ["g++"] + f + inc + ["-c", s, "-o", o]))
        running, errs, pend = [], [], list(jobs)
        while pend or running:
            while pend and len(running) < 8:
                s, o, cmd = pend.pop()
                ef = open(o + ".err", "w+")
                running.append((s, subprocess.Popen(cmd, stdout=ef, stderr=ef), ef))
            time.sleep(0.02)
            for r in list(running):
                if r[1].poll() is not None:
                    running.remove(r)
                    if r[1].returncode != 0:
                        r[2].seek(0)
                        errs.append((r[0], r[2].read()[:1500]))
                    r[2].close()
        if errs:
            return dict(status="nobuild", why="; ".join("%s: %s" % e for e in errs)[:3000], wall=time.time() - t0)
        exe = os.path.join(self.tmp, "h")
        p = subprocess.run(["g++", "-fsanitize=address,undefined", "-o", exe] + [o for s, o, c in jobs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return dict(status="nobuild", why=p.stdout.decode(errors="replace")[-2000:], wall=time.time() - t0)
        tb = time.time() - t0
        scale = self.spec.get("thorough_scale", 10) if TIER == "thorough" else 1
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=%d:allocator_may_return_null=1" % (1 if self.spec.get("leaks") else 0), UBSAN_OPTIONS="print_stacktrace=1",
                   QPV_SCRATCH=self.tmp)
        lim = self.spec.get("timeout", 240) * (3 if TIER == "thorough" else 1)
        try:
            p = subprocess.run([exe, str(SEED), str(scale)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=lim, cwd=self.tmp)
            out, err, rc = p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"), p.returncode
        except subprocess.TimeoutExpired as e:
            out, err, rc = (e.stdout or b"").decode(errors="replace"), "the harness did not terminate within %d s" % lim, -1
        st = re.search(r"STAT evaluations=(\d+) distinct_nontrivial=(\d+)", out)
        r = dict(wall=time.time() - t0, build=tb, rc=rc, evaluations=int(st.group(1)) if st else 0, distinct=int(st.group(2)) if st else 0,
                 samples=[x[7:] for x in out.split("\n") if x.startswith("SAMPLE ")][:3], known=[x[6:] for x in out.split("\n") if x.startswith("KNOWN ")])
        if rc == 0 and st:
            r["status"] = "pass"
        else:
            fl = [x for x in out.split("\n") if x.startswith("FAIL")]
            r["status"] = "fail"
            r["what"] = fl[0] if fl else (re.sub(self.tmp, "", err)[:4000] or "exit status %d" % rc)
            r["out"] = "\n".join(out.split("\n")[-30:])[-3000:] + "\n" + err[:4000]
        return r


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    spec = PROPS[prop]
    t0 = time.time()
    hth = None
    if spec.get("harness"):
        hth = Harness(prop, spec)
        hth.start()
    from qpv import frontend as F, driver
    from qpv.execu import Registry
    rep, verr = [], None
    try:
        P = F.load(REPO)
        R = Registry()
        for m in spec["modules"]:
            importlib.import_module("contracts." + m).setup(R)
        ids = {c.id for c in R.contracts if not c.trusted and not c.only_call and any(c.id.startswith(p) for p in spec["ids"]) and not any(c.id.startswith(p) for p in spec.get("not_ids", []))}
        if hth and spec.get("serial", True):
            hth.join()          # the replay harness is quick; run it first so that solver time limits are not disturbed
        if hth and hth.res.get("status") == "fail":
            # a concrete failing input settles the check; name the obligations that fail with it, within a small budget
            rep = driver.run(P, R, ids, budget=2500, deadline=time.time() + 40, retry=False)
        else:
            deadline = t0 + (3000 if TIER == "thorough" else 640)
            rep = driver.run(P, R, ids, budget=spec.get("budget", 10000) * (3 if TIER == "thorough" else 1), deadline=deadline, retry=True)
    except F.FrontendError as e:
        verr = str(e)
    if hth:
        hth.join()
        hres = hth.res
    else:
        hres = dict(status="none")
    report(prop, spec, rep, verr, hres, t0, R if not verr else None)


def report(prop, spec, rep, verr, hres, t0, R):
    viol, lines = 0, []
    failed, unsup, vac = [], [], []
    nob = ndis = 0
    by, funcs, assume, stime = {}, [], set(), 0.0
    for r in rep:
        if r["status"] != "ok":
            unsup.append((r["id"], r["why"]))
            continue
        bad = [o for o in r["obls"] if o["res"] != "proved"]
        if r["unbound"]:
            unsup.append((r["id"], "loop annotations name locals or loops that the source no longer has: %s" % (r["unbound"],)))
        nob += len(r["obls"])
        ndis += len(r["obls"]) - len(bad)
        for o in r["obls"]:
            stime += o.get("t", 0)
            if o["res"] == "proved":
                by[o["by"]] = by.get(o["by"], 0) + 1
        if r["vac"]:
            vac.append((r["id"], r["vac"]))
        if bad and r["unbound"]:
            continue            # not a verdict: the annotation does not fit the code; bounded harness stands in
        if not bad:
            funcs.append("%s (%s:%s): %d" % (r["id"], os.path.basename(r["file"] or "?"), r["line"], len(r["obls"])))
        failed += [(r["id"], o) for o in bad]
        assume |= set(r["assumptions"])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(HERE, "replay")
    os.makedirs(rdir, exist_ok=True)
    kn = known_findings(prop)
    for key, what in kn:
        lines.append("KNOWN-FINDING: property=%s %s" % (prop, what))
    code = 0
    if hres["status"] == "fail":
        f = os.path.join(rdir, "%s-input.txt" % prop)
        with open(f, "w") as o:
            o.write("property %s\nharness %s seed %d tier %s\n\n%s\n\n%s\n" % (prop, spec["harness"], SEED, TIER, hres["what"], hres["out"]))
            for cid, ob in failed:
                o.write("obligation not discharged: %s :: %s (line %s) %s\n" % (cid, ob["name"], ob["line"], ob.get("why")))
            o.write("\nreplay: VERIF_SEED=%d VERIF_TIER=%s ./check.py %s   (deterministic; the case above is reached again)\n" % (SEED, TIER, prop))
        lines.append("VIOLATION property=%s replay=%s" % (prop, f))
        print(hres["what"][:1500])
        viol += 1
        code = 1
    elif failed or vac:
        f = os.path.join(rdir, "%s-obligation.txt" % prop)
        with open(f, "w") as o:
            for cid, ob in failed:
                o.write("failed obligation: %s :: %s (line %s) -- solver: %s after %.1f s\n  goal: %s\n  model: %s\n" % (
                    cid, ob["name"], ob["line"], ob.get("why"), ob["t"], ob.get("goal"), json.dumps(ob.get("model"), indent=1)))
            for cid, v in vac:
                o.write("vacuous contract (unreachable): %s %s\n" % (cid, v))
            o.write("\nreplay harness: %s\n" % json.dumps(hres, indent=1))
        for cid, ob in failed[:20]:
            print("failed obligation: %s :: %s (line %s) %s" % (cid, ob["name"], ob["line"], ob.get("why")))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, f))
        viol += 1
        code = 1
    if code == 0 and hres["status"] not in ("pass", "none") and not funcs:
        print("neither the verifier nor the harness could run: %s %s" % (verr, hres))
        code = 2
    trusted = [c.id + ": " + (c.trusted if isinstance(c.trusted, str) else "assumed contract") for c in R.contracts if c.trusted] if R else []
    proved_ids = {r["id"] for r in rep}
    variants = {c.qual for c in (R.contracts if R else []) if c.id in proved_ids}
    proved_ids |= {c.id for c in (R.contracts if R else []) if c.only_call and c.qual in variants}
    used = sorted(set(x for r in rep if r["status"] == "ok" for x in r["used"]))
    inl = sorted(set(x for r in rep if r["status"] == "ok" for x in r["inlined"]))
    cov = dict(obligations=max(nob, 0), discharged=ndis,
               checker_cmd="python3-vt check.py %s (qpv: VC generation from clang's typed AST of /repo's current source; z3 5.3.2, cvc5 1.1.2, z3 4.8.12)" % prop,
               trusted_base=["clang 18 AST (front end)", "qpv VC generator and its C++ semantics (qpv/execu.py, qpv/sym.py, qpv/builtins.py)", "z3, cvc5"] + [t for t in trusted if t.split(": ")[0] in used],
               functions_under_contract=funcs, callee_contracts_used=used, callee_contracts_proved_by_another_check=[u for u in used if u not in proved_ids and not any(t.startswith(u + ':') for t in trusted)], inlined_functions=inl, by_backend=by, solver_s=round(stime, 1),
               failed=[c + " :: " + o["name"] for c, o in failed], bounded_stand_ins=[dict(function=a, reason=b) for a, b in unsup] + [dict(note=b) for b in spec.get("bounded", [])],
               frontend_error=verr,
               replay_harness=dict(file=spec.get("harness"), label="bounded: never counted as proved", status=hres["status"], evaluations=hres.get("evaluations", 0),
                                   distinct_nontrivial=hres.get("distinct", 0), wall_s=round(hres.get("wall", 0), 1), samples=hres.get("samples", []), why=hres.get("why")))
    if hres["status"] == "fail" and not rep:
        cov["explanation"] = "the replay harness found a concrete failing input"
    if spec.get("level"):
        cov.update(explanation=spec["explanation"], evaluations=hres.get("evaluations", 0), distinct_nontrivial=hres.get("distinct", 0), rule=spec.get("rule", ""), samples=hres.get("samples", []))
    ev = dict(property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=spec.get("level", "proof"), coverage=cov,
              assumptions=sorted(assume) + BASE_ASSUMPTIONS + spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=viol)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
    print("%s: %d functions proved, %d/%d obligations discharged, %d not brought under proof; harness %s (%d cases); %.0f s" % (
        prop, len(funcs), ndis, nob, len(unsup), hres["status"], hres.get("evaluations", 0), time.time() - t0))
    for u in unsup:
        print("  bounded only: %s: %s" % u)
    if hres["status"] in ("nobuild", "error"):
        print("  harness did not run: %s" % str(hres.get("why"))[:600])
    for l in lines:
        print(l)
    sys.stdout.flush()
    os._exit(code)


BASE_ASSUMPTIONS = [
    "int_t/uint_t arithmetic is mathematical (no overflow); real_t arithmetic is mathematical real arithmetic (no rounding, NaN or infinities)",
    "pointer parameters, and pointer fields of distinct objects, refer to separate allocations unless the contract says otherwise",
    "operator new succeeds; destructors are not executed by the verifier; printing and message output have no effect on program state",
]

if __name__ == "__main__":
    main()
