"""development runner: python3-vt -m qpv.dev module [id ...] [-v]"""
import sys, importlib, time, pickle, os, hashlib
from . import frontend as F, driver
from .execu import Registry
args = [a for a in sys.argv[1:] if not a.startswith("-")]
t = time.time()
P = F.load()
print("load %.1f" % (time.time() - t))
R = Registry()
mods = args[0].split(",")
for m in mods:
    importlib.import_module("contracts." + m).setup(R)
ids = set()
for c in R.contracts:
    if not args[1:] or any(a in c.id for a in args[1:]):
        ids.add(c.id)
rep = driver.run(P, R, ids, budget=int(os.environ.get("BUDGET", "8000")))
driver.summarize(rep, verbose="-v" in sys.argv)
print("total %.1f" % (time.time() - t))
