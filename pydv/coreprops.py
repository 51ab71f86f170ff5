"""The contracts of contracts/core/*.py: the functions of mealpy's core, each verified against its contract from the current source, callers
against the contracts of their callees (pv.py).  One process per function."""
import os, sys, time, glob, importlib, traceback, resource, multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = ["z3 4.x (z3-solver of python3-vt)", "pydv/pv.py: the symbolic executor of the Python subset that generates the obligations", "the contracts of the NumPy, random, os and time functions in pydv/corelib.py and contracts/core"]
ASSUME = ["fitness values are real numbers (no NaN), floating-point arithmetic is treated as exact unless a contract says otherwise",
          "the user's callables and external libraries do not reach into the optimizer's fields"]


def modules():
    return [importlib.import_module("contracts.core." + os.path.basename(f)[:-3]) for f in sorted(glob.glob(os.path.join(HERE, "contracts", "core", "*.py"))) if not f.endswith("__init__.py")]


def contracts():
    return [k() for m in modules() for k in m.CONTRACTS]


def applies(c, name, pid):
    """is the obligation evidence for the property?"""
    for key, ps in getattr(c, "tags", ()):
        if key in name: return pid in ps
    return pid in c.props


_S = {}
def _init(root):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    from .src import Repo
    _S["repo"] = Repo(root); _S["all"] = contracts(); _S["C"] = {c.target: c for c in _S["all"] if not getattr(c, "proof_only", False)}


def key(c): return type(c).__module__.rsplit(".", 1)[1] + "." + type(c).__name__


def job(a):
    k, end, long = a
    from . import pv, corelib
    c = next(c for c in _S["all"] if key(c) == k)
    t0 = time.time()
    try:
        if end - t0 < 3: raise TimeoutError()
        prove = (lambda pc, g: pv.decide(pc, g, 60000)) if long else pv.decide
        r = pv.verify(_S["repo"], _S["C"], c, getattr(c, "make", corelib.CoreVC), end, prove)
    except TimeoutError: r = dict(status="timeout", why="no time left", obligations=[])
    except MemoryError: r = dict(status="timeout", why="memory", obligations=[])
    except Exception: r = dict(status="crash", why=traceback.format_exc()[-500:], obligations=[])
    r["obligations"] = [tuple(map(lambda x: x if x is None or isinstance(x, (str, int, float)) else str(x), o)) for o in r["obligations"]]
    r.update(key=k, target=c.target, wall=round(time.time() - t0, 1))
    return r


def prove(pid, repo, tier, seed):
    t0 = time.time()
    quick = tier != "thorough"
    end = t0 + (300 if quick else 3600)
    allc = contracts()
    mine = [c for c in allc if not getattr(c, "encoded", False) and (pid in c.props or any(pid in ps for _, ps in getattr(c, "tags", ())))]
    by = {}
    for c in allc:
        if not getattr(c, "encoded", False): by.setdefault(c.target, []).append(c)
    done, todo, res = set(), [(c, True) for c in mine], []
    ctx = mp.get_context("fork")
    with ctx.Pool(min(8, os.cpu_count() or 8), initializer=_init, initargs=(repo.root,)) as pool:
        while todo:
            batch = [(c, m) for c, m in todo if key(c) not in done]
            done |= {key(c) for c, _ in batch}
            rs = list(pool.imap_unordered(job, [(key(c), end, not quick) for c, _ in batch]))
            own = {key(c): m for c, m in batch}
            for r in rs: res.append((r, own[r["key"]]))
            # the contracts that these proofs rely on are proved too
            todo = [(c, False) for t in sorted({u for r in rs for u in r.get("used", ())}) for c in by.get(t, []) if key(c) not in done]
    C = {key(c): c for c in allc}
    n = d = und = 0; failed, notes, fns, solver, vac = [], [], set(), 0.0, 0
    trusted_c, inl = set(), set()
    for r, own in res:
        c = C[r["key"]]; solver += r.get("solver", 0) or 0
        if r["status"] in ("ok", "fail"):
            fns.add(r["target"]); inl |= set(r.get("inlined", ())); 
            trusted_c |= {u for u in r.get("used", ()) if u not in by}
            for o in r["obligations"]:
                rel = own and applies(c, o[0], pid)
                if own and not rel and pid not in c.props: continue
                n += 1
                if o[1] == "proved": d += 1
                elif rel: failed.append(dict(name=o[0] + (f" (line {o[3]})" if o[3] else ""), why=f"{o[1]}: the prover does not accept the obligation for the current source", function=r["target"], model=o[2]))
                else: und += 1; notes.append(f"not proved: {o[0]} ({r['target']}, a contract this proof relies on, or a clause of another property)")
        else:
            n += 1; und += 1; notes.append(f"no answer from the verifier for {r['target']} ({r['status']}: {str(r.get('why'))[-200:]})")
    return dict(part="contracts of the core functions", obligations=n, discharged=d, undecided=und, failed=failed, focus=[], notes=notes, functions=len(fns), functions_under_contract=sorted(fns),
                inlined=sorted(inl), assumed_contracts=sorted(trusted_c), solver_s=round(solver, 1), back_end="z3", assumptions=ASSUME + [x for m in modules() if m.__name__.rsplit(".", 1)[1] in {r["key"].split(".")[0] for r, _ in res} for x in getattr(m, "ASSUME", ())], trusted_base=list(TRUSTED), wall_s=round(time.time() - t0, 1))
