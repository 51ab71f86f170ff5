"""tools/mkcontracts.py results.json...: write contracts/opt/<module>.json from the results of tools/vcall.py (developer tool, run on the
unchanged tree only; nothing of the checks calls it)."""
import sys, os, json, collections
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, H)
sys.setrecursionlimit(20000)
from pydv.src import Repo
from pydv import optprops
repo = Repo(os.environ.get("REPO", "/repo"))
old = optprops.load()
res = {}
for f in sys.argv[1:]:
    for r in json.load(open(f)): res[(r["cls"], r["mode"])] = r
P = ("C01", "C02", "C06", "C07")
out = collections.defaultdict(dict); cnt = collections.Counter()
for c in repo.optimizers():
    h = optprops.closure_hash(repo, c)
    e = dict(hash=h)
    for m in optprops.MODES:
        r = res.get((c.qual, m))
        if r is None:
            o = old.get(c.qual, {})
            if o.get("hash") == h and m in o: e[m] = o[m]
            continue
        if r["status"] not in ("ok", "FAIL"): e[m] = dict(annot=None, proved={p: False for p in P}, time=r["time"], why=r.get("why", r["status"])[:200]); continue
        bad = {b[0].split()[0] if len(b) < 3 else b[2] for b in r["bad"]}
        # (the proof of one goes on under the assumption of the others; DESIGN.md section 2 says which of them that may not spoil)
        dead = any("not an array" in b[0] for b in r["bad"])
        pr = dict(C01=not bad & {"C01", "C02"}, C02="C02" not in bad, C06="C06" not in bad, C07="C07" not in bad)
        if dead or bad & {"C06", "C07"}: pr = {p: False for p in P}
        e[m] = dict(annot=r["annot"], proved=pr, time=r["time"])
        if bad: e[m]["why"] = "; ".join(sorted({b[0] for b in r["bad"]}))[:300]
        for p in P: cnt[p] += pr[p]
    out[c.mod.name.split(".")[1] + "." + c.mod.name.split(".")[2] if c.mod.name.count(".") > 1 else c.mod.name][c.qual] = e
os.makedirs(optprops.DIR, exist_ok=True)
for m, d in out.items(): json.dump(d, open(os.path.join(optprops.DIR, m + ".json"), "w"), indent=0, sort_keys=True)
print(cnt, len(repo.optimizers()) * 2)
open(optprops.CORE, "w").write(optprops.core_hash(repo) + "\n")
