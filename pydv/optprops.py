"""C01, C02, C06, C07 over every optimizer class: the obligations of optvc.py, one process per class and mode.

contracts/opt/<module>.json holds, per class and mode, the loop annotations (the candidate invariants that are inductive, and those that
are not) and whether the class was verified when the contracts were written.  The annotations only steer the search for invariants: every
candidate is proved inductive again on every run from the current source."""
import os, json, time, ast, hashlib, traceback, resource, multiprocessing as mp
from .src import Repo
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIR = os.path.join(HERE, "contracts", "opt")
MODES = ("single", "swarm")
OBL = {"C01": ("C01",), "C02": ("C02",), "C06": ("C06",), "C07": ("C07",)}


def load():
    res = {}
    for f in sorted(os.listdir(DIR)) if os.path.isdir(DIR) else []:
        if f.endswith(".json"): res.update(json.load(open(os.path.join(DIR, f))))
    return res


def closure_hash(repo, c):
    """of the code of the class and its bases, docstrings aside"""
    h = hashlib.sha1()
    for k in repo.mro(c):
        if k.mod.name == "mealpy.optimizer": continue
        for n in ast.walk(k.node):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
                n.body[0].value.value = ""
        h.update(ast.dump(k.node).encode())
        for f in k.mod.fns.values(): h.update(ast.dump(f.node).encode())
    return h.hexdigest()[:16]


def core_hash(repo):
    """of the code that the searches share: every module of the package that is not an algorithm module, docstrings aside"""
    h = hashlib.sha1()
    for n in sorted(repo.mods):
        if n == "mealpy.optimizer" or n.startswith("mealpy.utils"):
            for x in ast.walk(repo.mods[n].tree):
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.body and isinstance(x.body[0], ast.Expr) and isinstance(x.body[0].value, ast.Constant) and isinstance(x.body[0].value.value, str): x.body[0].value.value = ""
            h.update(n.encode()); h.update(ast.dump(repo.mods[n].tree).encode())
    return h.hexdigest()[:16]
CORE = os.path.join(DIR, "core.hash")


def changed_classes(root):
    """the classes whose code is not the one the contracts were written for (none when that is most of them): for the bounded part"""
    C = load()
    try: repo = Repo(root)
    except SyntaxError: return []
    ch = [q for q, c in ((c.qual, c) for c in repo.optimizers()) if q in C and C[q]["hash"] != closure_hash(repo, c)]
    return [q.split(".", 2)[2] for q in ch] if len(ch) <= 40 else []


_repo = []
def _init(root):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import sys; sys.setrecursionlimit(20000)
    _repo.append(Repo(root))


def run(repo, q, mode, annot, tmo, props=None, vacuity=True):
    """-> dict(status ok|fail|unsup|timeout|crash, n, bad=[(name, line, prop)], ...)"""
    from . import optvc, vc
    from .heap import Unsupported
    t0 = time.time()
    p = vc.Prover(); p.deadline = t0 + tmo
    res = dict(cls=q, mode=mode)
    try:
        v = optvc.verify(repo, repo.cls(q), mode, p, annot)
        bad, n, last = [], {}, None
        for o in v.obls:
            n[o[1]] = n.get(o[1], 0) + 1
            if props and o[1] not in props: continue
            if p.failing(o[2], [(o[0], o[3])], p.final): bad.append((o[0], o[4], o[1]))
            last = o
        n["C07"] = n.get("C07", 0) + len(getattr(v, "set_reads", ())) + 1        # reads on paths that all set the field first; the fields a search leaves are closed under another search
        vac = vacuity and last is not None and not p.reachable(last[2], 300)
        res.update(status="vacuous" if vac else "fail" if bad else "ok", n=n, bad=bad, notes=sorted(map(str, v.notes))[:20], covered=sorted(v.covered), used=sorted(v.used_contracts), inv=p.proved)
        if annot is None: res["annot"] = v.final_annot()
    except Unsupported as e: res.update(status="unsup", why=str(e)[:300])
    except TimeoutError as e: res.update(status="timeout", why=str(e))
    except MemoryError: res.update(status="timeout", why="memory")
    except Exception: res.update(status="crash", why=traceback.format_exc()[-800:])
    res.update(time=round(time.time() - t0, 1), solver=round(p.time, 1), queries=p.queries)
    return res


def job(a):
    q, mode, annot, props, tmo, end = a
    left = end - time.time()
    if left < 5: return dict(cls=q, mode=mode, status="timeout", why="no time left", time=0, solver=0)
    r = run(_repo[0], q, mode, annot, min(tmo, left), props)
    if r["status"] != "ok" and annot is not None:       # once more, with the full inference of invariants
        left = end - time.time()
        if left < 10: r["status"] = "timeout" if r["status"] == "fail" else r["status"]; return r
        first = r
        r = run(_repo[0], q, mode, None, min(3 * tmo, left), props)
        r["first"] = first.get("why", first["status"])
    return r


TRUSTED = ["z3 4.x (z3-solver of python3-vt)", "pydv: the verification condition generator for the Python subset (this directory)", "CPython semantics as modelled by pydv/interp.py and the numpy contracts in pydv/optvc.py"]
ASSUME = {
    "all": ["the NumPy and random functions behave as their contracts in pydv/optvc.py say (result shapes aside: arrays are uninterpreted contents)",
            "floating-point rounding is not modelled; only clip, where, uniform(lb, ub) and Problem.correct_solution are known to give feasible arrays",
            "the constructor's extra keyword arguments set no field of the search",
            "contracts of the helpers of Optimizer (generate_population, update_target_for_population, update_global_best_agent, sorting and copying helpers) as in pydv/optvc.py; they are decided by their own checks (C08, C12, C14, C20)"],
    "C01": ["Problem.correct_solution returns a feasible array for every array of the problem's dimension (decided by C09 and C23)", "given starting solutions are feasible", "array shapes are not modelled: the dimension of evaluated positions is decided by the bounded part"],
    "C02": ["the user's objective function is a function of the position (deterministic)"],
    "C06": ["thread and process modes differ from swarm only inside the helpers of Optimizer (C08)"],
    "C07": ["the proof part shows that a search reads no field left by an earlier search before setting it; absence of other sources of difference is the frame part"],
}


def prove(pid, repo, tier, seed, budget=None):
    t0 = time.time()
    C = load()
    quick = tier != "thorough"
    end = t0 + (budget or (430 if quick else 6 * 3600))
    props = OBL[pid]
    cs = {c.qual: c for c in repo.optimizers()}
    hashes = {q: closure_hash(repo, c) for q, c in cs.items()}
    jobs, standin = [], []
    same_core = os.path.exists(CORE) and open(CORE).read().strip() == core_hash(repo)
    changed = [q for q in cs if q in C and C[q]["hash"] != hashes[q]]
    for q in cs:
        for m in MODES:
            b = C.get(q, {}).get(m)
            if b is None or b["proved"].get(pid) is not True:
                standin.append((q, m))
                if quick: continue
            jobs.append((q, m, b["annot"] if b and quick else None, props, 60 if quick else 900, end))
    cost = lambda j: C.get(j[0], {}).get(j[1], {}).get("time", 30)
    jobs.sort(key=lambda j: (j[0] not in changed, -cost(j)))
    ctx = mp.get_context("fork")
    out = []
    with ctx.Pool(min(8, os.cpu_count() or 8), initializer=_init, initargs=(repo.root,), maxtasksperchild=12) as pool:
        for r in pool.imap_unordered(job, jobs): out.append(r)
    failed, undecided, nobl, ndis, focus, notes, fns, used, inv = [], 0, 0, 0, set(), [], set(), set(), 0
    lost = []
    for r in out:
        q, m = r["cls"], r["mode"]
        k = sum(r.get("n", {}).get(p, 0) for p in props)
        fns |= set(r.get("covered", ())); used |= set(r.get("used", ())); inv += r.get("inv", 0)
        if r["status"] == "ok": nobl += k; ndis += k
        elif r["status"] == "fail":
            bad = [b for b in r["bad"] if b[2] in props]
            nobl += k; ndis += k - len(bad)
            if (q, m) in standin: undecided += len(bad); continue
            if same_core and q not in changed:
                # word for word the code on which these very obligations were discharged: the prover gave up (its search is heuristic), the code did not change
                undecided += len(bad); lost.append(f"{q}[{m}]: {len(bad)} obligations not discharged again, on unchanged code"); continue
            for name, line, _ in bad[:4]:
                failed.append(dict(name=f"{name} (line {line})", why="the prover does not accept the obligation for the current source", classes=[q.split(".", 2)[2]], function=q))
        else:
            nobl += 1; undecided += 1; lost.append(f"{q}[{m}]: {r['status']} {r.get('why', '')[:120]}")
            focus.add(q.split(".", 2)[2])
    # a class whose code is not the one the contracts were written for gets more bounded runs
    if len(changed) <= 40: focus |= {q.split(".", 2)[2] for q in changed}
    st = sorted({q.split(".", 2)[2] for q, _ in standin})
    if st: notes.append(f"bounded stand-in only (not proved, {len(standin)} of {2 * len(cs)} class/mode pairs): " + ", ".join(st))
    if lost: notes.append("no answer from the verifier in this run: " + "; ".join(lost[:10]))
    return dict(part="search of every optimizer class", obligations=nobl, discharged=ndis, undecided=undecided, failed=failed, focus=sorted(focus), notes=notes,
                functions=len(fns), invariant_obligations=inv, class_mode_pairs=len(out), class_mode_pairs_proved=sum(r["status"] == "ok" for r in out),
                stand_in_pairs=len(standin), solver_s=sum(r["solver"] for r in out), contracts_used=sorted(used), back_end="z3",
                assumptions=ASSUME["all"] + ASSUME[pid], trusted_base=TRUSTED, wall_s=round(time.time() - t0, 1))
