"""from tools.mkseed import mk: writes seeded/<id>/ from an edit of /repo (undone afterwards)."""
import subprocess, os, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mk(id, prop, edits, demo, needs, breaks):
    assert not subprocess.run("git -C /repo status --porcelain", shell=True, stdout=subprocess.PIPE).stdout
    d = V + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE).stdout
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.cpp", "w").write(demo)
    shutil.copy(V + "/tools/demo_template.sh", d + "/demo.sh")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
