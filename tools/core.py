"""Developer driver: verify the core contracts of the named modules / targets and print every obligation."""
import sys, os, time, importlib
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, H)
sys.setrecursionlimit(20000)
from pydv.src import Repo
from pydv import pv, corelib
repo = Repo(os.environ.get("REPO", "/repo"))
names = sys.argv[1:]
import glob
mods = [os.path.basename(f)[:-3] for f in sorted(glob.glob(os.path.join(H, "contracts/core/*.py"))) if not f.endswith("__init__.py")]
allc = [k() for m in mods for k in importlib.import_module("contracts.core." + m).CONTRACTS]
C = {c.target: c for c in allc if not getattr(c, "proof_only", False)}
for c in allc:
    if getattr(c, "encoded", False): continue
    if names and not any(n in c.target or n in type(c).__module__ for n in names): continue
    t0 = time.time()
    try: r = pv.verify(repo, C, c, getattr(c, "make", corelib.CoreVC), time.time() + 300)
    except Exception:
        import traceback; traceback.print_exc(); print("CRASH", c.target); continue
    print(r["status"], c.target, type(c).__name__, f"{time.time()-t0:.1f}s", "obls", len(r["obligations"]), r.get("why", ""), "paths", r.get("paths"), r.get("notes"))
    for o in r["obligations"]:
        if o[1] != "proved": print("    ", o[1], o[0], "line", o[3]); print("        ", (o[2] or "")[:int(os.environ.get("MODEL", "0"))])
