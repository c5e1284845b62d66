#!/usr/bin/env python3
"""tryseed.py ID [ID...] [--nocheck]: applies seeded/ID/patch.diff to /repo, builds, runs tests and demo, runs the check of its property, undoes it."""
import sys, os, json, subprocess, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")]
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


assert not sh("git -C /repo status --porcelain").stdout, "dirty /repo"
for i in ids:
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    out = [i, prop]
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode:
        print(i, "PATCH DOES NOT APPLY", r.stdout.decode()); continue
    try:
        t = time.time()
        r = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
        res = json.load(open("/tmp/seed_out.json"))
        miss = base - set(res["passed"])
        out.append("tests ok" if not miss else "TESTS FAIL %d %s" % (len(miss), sorted(miss)[:3]))
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        out.append("demo fails (good)" if r.returncode else "DEMO PASSES WITH PATCH")
        dm = r.stdout.decode(errors="replace")[-300:]
        if "--nocheck" not in sys.argv:
            t = time.time()
            r = sh("python3-vt check.py %s" % prop, cwd=V)
            o = r.stdout.decode(errors="replace")
            v = [l for l in o.split("\n") if l.startswith("VIOLATION")]
            out.append("%s rc=%d %.0fs" % ("CAUGHT" if r.returncode == 1 and v else "MISSED", r.returncode, time.time() - t))
            out.append(v[0] if v else o[-300:])
            out.append([l for l in o.split("\n") if l.startswith("FAIL") or l.startswith("failed") or "runtime error" in l][:2])
    finally:
        sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    out.append("demo clean ok" if r.returncode == 0 else "DEMO FAILS ON CLEAN: " + r.stdout.decode(errors="replace")[-500:])
    print(*out, sep=" | ", flush=True)
