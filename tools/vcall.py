"""Developer driver: verify the named optimizer classes (all when none are named) and print a summary per class."""
import sys, os, time, json, traceback, resource
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
sys.setrecursionlimit(20000)
from multiprocessing import Pool
from pydv.src import Repo
REPO = os.environ.get("REPO", "/repo")
_r = []

def job(a):
    q, mode, tmo = a
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from pydv import optvc, vc
    from pydv.heap import Unsupported
    if not _r: _r.append(Repo(REPO))
    t0 = time.time()
    res = dict(cls=q, mode=mode)
    p = vc.Prover(); p.deadline = t0 + tmo
    try:
        v = optvc.verify(_r[0], _r[0].cls(q), mode, p)
        bad = []
        for o in v.obls:
            f = p.failing(o[2], [(o[0], o[3])], p.final)
            if f: bad.append((o[0], o[4]))
        res.update(n=len(v.obls), bad=bad, status="ok" if not bad else "FAIL", notes=sorted(v.notes), annot=v.final_annot())
    except Unsupported as e:
        tb = traceback.extract_tb(e.__traceback__)
        res.update(status="unsup", why=str(e), line=None)
    except TimeoutError as e: res.update(status="timeout", why=str(e))
    except Exception as e:
        res.update(status="crash", why=traceback.format_exc()[-1500:])
    res.update(time=round(time.time() - t0, 1), solver=round(p.time, 1), q=p.queries)
    return res

if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument("names", nargs="*"); ap.add_argument("--mode", default="single,swarm"); ap.add_argument("-t", type=int, default=100); ap.add_argument("-o"); ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    repo = Repo(REPO)
    cs = [c for c in repo.optimizers() if not a.names or c.name in a.names or c.qual in a.names]
    jobs = [(c.qual, m, a.t) for c in cs for m in a.mode.split(",")]
    out = []
    with Pool(a.j, maxtasksperchild=8) as p:
        for r in p.imap_unordered(job, jobs):
            out.append(r)
            if len(jobs) <= 40 or r["status"] != "ok":
                print(r["status"], r["cls"].split(".", 1)[1], r["mode"], r.get("n"), r["time"], r["solver"], r.get("why", ""), flush=True)
                for b in r.get("bad", []): print("     ", b)
    from collections import Counter
    print(Counter(r["status"] for r in out), sum(r["time"] for r in out))
    if a.o: json.dump(out, open(a.o, "w"), indent=1)
