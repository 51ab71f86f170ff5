#!/usr/bin/env python3
"""python3-vt check.py <property id> [--tier quick|thorough]

One run = (1) the proof part: verification conditions regenerated from /repo's current source and discharged by the
SMT back ends, (2) the bounded part: run-time contracts on the real code, for what the prover does not reach and to
find a concrete failing input.  Exit 0: held. Exit 1 + VIOLATION line: broken. Exit 2: no answer (tool error).
"""
import os, sys, json, time, subprocess, random, argparse, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "harness"))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg", VERIF_REPO=REPO)
OUT = os.path.join(HERE, "evidence"); REPLAY = os.path.join(OUT, "replay")
DEADLINE = time.time() + 780         # of a quick run
SWEEP = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C20", "C21"}      # properties monitored over all optimizer classes
CORE = {"C05", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C22", "C23", "C24"}


def findings(pid):
    """-> [(key, text)] of the known (not repaired) findings of the property"""
    res = []
    for l in open(os.path.join(HERE, "known_findings.txt")):
        l = l.strip()
        if l.startswith("finding: property=" + pid + " "):
            rest = l.split(" ", 2)[2]
            assert rest.startswith("key=["), l
            key, text = rest[5:].split("] ", 1)
            res.append((key, text))
    return res


def run_json(cmd, out, env=None, timeout=None):
    if os.path.exists(out): os.remove(out)
    p = subprocess.run(cmd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    if not os.path.exists(out): raise RuntimeError(f"{' '.join(cmd)} gave no result: {p.stdout[-1500:]}")
    r = json.load(open(out)); os.remove(out)
    return r


class Work:
    def __init__(self):
        import tempfile
        self.d = tempfile.mkdtemp(prefix="verif-")
    def path(self, n): return os.path.join(self.d, n)
    def close(self):
        import shutil; shutil.rmtree(self.d, ignore_errors=True)


def core_part(pid, seed, tier, work):
    r = run_json([PY, os.path.join(HERE, "harness", "coreruns.py"), pid, "--seed", str(seed), "--tier", tier, "--out", work.path("core.json")],
                 work.path("core.json"), timeout=600)
    if any("harness error" in n for n in r["notes"]) and not r["failures"]:
        raise RuntimeError(r["notes"][-1])
    return r


def norm(msg):
    import re
    return re.sub(r"[-+]?\d+\.?\d*(e[-+]?\d+)?", "#", msg)


def sweep_part(pid, seed, tier, work, only=None, n=None):
    """The run-time contract monitor over every optimizer class."""
    import cfggen
    lst = subprocess.run([PY, os.path.join(HERE, "harness", "optruns.py"), "--list"], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    try: classes = json.loads(lst.stdout.splitlines()[-1])
    except Exception:
        return dict(evaluations=0, distinct_nontrivial=0, samples=[], notes=["the package cannot be imported"],
                    failures=[dict(key="import", msg="mealpy cannot be imported: " + lst.stderr[-300:], case=None)], classes=0)
    if only: classes = [c for c in classes if c in only]
    th = tier == "thorough"
    k = n or (120 if th else 12)
    if pid == "C07": k = max(2, k // 3)
    if pid == "C20": k = max(3, k // 4)
    kw = {}
    if pid == "C07": kw = dict(modes=("single", "single", "swarm"))
    if pid == "C06": kw = dict(term=True)
    if pid == "C05": k, kw = (40 if th else 4), dict(modes=("single", "single", "swarm"), epochs=(5, 9))
    cfgs = cfggen.make(classes, k, f"{pid}-{seed}", start=(pid == "C20"), **kw)
    if pid == "C20":
        for c in cfgs: c["epoch"] = 4
    if pid in ("C01", "C02", "C03") and not only:
        r = random.Random(f"adv{seed}")
        for c in cfgs[::3]: c["adv"] = 1 + r.randrange(1000); c["advp"] = r.choice([0.02, 0.1, 0.3])
    sh = random.Random(f"{pid}{seed}")
    if pid == "C05":        # ordinary problems, on which every search has to run to its end
        for c in cfgs:
            c.update(bounds="float2", land=sh.choice(["sphere", "rugged"]), pop_size=20, kwargs={}, minmax=sh.choice(["min", "min", "max"]))
            c["termd"] = sh.choice([None, dict(max_epoch=sh.choice([1, 2, 4, 5, 6, 9, 20])), dict(max_fe=sh.randrange(20, 400)), dict(max_epoch=4, max_fe=sh.randrange(50, 300)), dict(max_early_stop=2, max_epoch=7)])
            c["term"] = c["termd"] is not None
    if pid == "C04":        # also searches ended early by a termination
        for c in cfgs[::3]: c["termd"] = sh.choice([dict(max_epoch=sh.choice([1, 2, 3])), dict(max_fe=sh.randrange(20, 200)), dict(max_early_stop=1)]); c["term"] = True
    sh.shuffle(cfgs)
    opt = os.path.join(HERE, "harness", "optruns.py")
    json.dump(cfgs, open(work.path("cfgs.json"), "w"))
    T = 5000 if th else max(30, min(420, DEADLINE - time.time()))
    opt_args = ["--deadline", str(time.time() + T - 15)]
    fails, seen = [], set()
    def fail(key, msg, case):
        if key not in seen: seen.add(key); fails.append(dict(key=key, msg=msg, case=case))
    if pid == "C07":
        T /= 2
        A = [dict(c, gseed=sh.randrange(1000)) for c in cfgs]
        B = [dict(c, gseed=sh.randrange(1000, 2000), warm=(sh.randrange(1000) if i % 2 else None)) for i, c in enumerate(cfgs)]
        res = []
        for X, hs in ((A, "1"), (B, "77")):
            opt_args = ["--deadline", str(time.time() + T - 15)]
            json.dump(X, open(work.path("cfgs.json"), "w"))
            res.append(run_json([PY, opt, "--cfgs", work.path("cfgs.json"), "--out", work.path("r.json")] + opt_args, work.path("r.json"), env=dict(ENV, PYTHONHASHSEED=hs), timeout=T + 120))
        for a, b in zip(*res):
            if "TimeoutError" in str(a["error"]) + str(b["error"]) or "HARNESS skipped" in str(a["error"]) + str(b["error"]): continue
            if a.get("digest") != b.get("digest") or a.get("hist") != b.get("hist"):
                fail(f"{a['cfg']['cls']} repeat", f"{a['cfg']['cls']}: two searches with seed {a['cfg']['seed']} differ ({a.get('n_evals')} / {b.get('n_evals')} evaluations)" +
                     (f" {a['error'] or ''} / {b['error'] or ''}" if a["error"] != b["error"] else ""), dict(first=a["cfg"], second=b["cfg"]))
        R = res[0] + res[1]
    else:
        R = run_json([PY, opt, "--cfgs", work.path("cfgs.json"), "--out", work.path("r.json")] + opt_args, work.path("r.json"), timeout=T + 120)
    dist = set(); nerr = 0
    for r in R:
        if r["error"]: nerr += 1
        if pid == "C05" and r["error"] and not r["error"].startswith("HARNESS") and "TimeoutError" not in r["error"]:
            fail(f"{r['cfg']['cls']} {norm(r['error'].split(' @')[0])[:60]}", f"{r['cfg']['cls']}: the search ended by an exception: {r['error']}", r["cfg"])
        for m in r["bad"].get(pid, []): fail(f"{r['cfg']['cls']} {norm(m)[:70]}", f"{r['cfg']['cls']}: {m}", r["cfg"])
        if r.get("digest"): dist.add(r["digest"])
    skipped = sum(str(r["error"]).startswith("HARNESS skipped") for r in R)
    R = [r for r in R if not str(r["error"]).startswith("HARNESS skipped")]
    herr = [r["error"] for r in R if r["error"] and r["error"].startswith("HARNESS")]
    notes = [f"{skipped} configurations not run for lack of time"] if skipped else []
    if herr: notes.append(f"{len(herr)} configurations were not run: {sorted(set(norm(e) for e in herr))[:6]}")
    if len(herr) > len(R) // 4: fail("construction", f"most optimizers cannot be run: {herr[0]}", None)
    errs = {}
    for r in R:
        if r["error"] and not r["error"].startswith("HARNESS"): errs.setdefault(r["cfg"]["cls"] + ": " + norm(r["error"])[:80], 0); errs[r["cfg"]["cls"] + ": " + norm(r["error"])[:80]] += 1
    if errs: notes.append(f"searches that ended with an exception (checked up to that point): {errs}")
    return dict(evaluations=len(R), distinct_nontrivial=len(dist), samples=[r["cfg"] for r in R[:4]], failures=fails, notes=notes, classes=len(classes))


def write_replay(pid, k, d):
    os.makedirs(REPLAY, exist_ok=True)
    p = os.path.join(REPLAY, f"{pid}-{k}.json")
    json.dump(d, open(p, "w"), indent=1, default=str)
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--no-proof", action="store_true"); ap.add_argument("--no-runs", action="store_true"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid, seed, tier = a.pid, a.seed, a.tier
    os.makedirs(OUT, exist_ok=True)
    for f in (os.listdir(REPLAY) if os.path.isdir(REPLAY) else []):
        if f.startswith(pid + "-"): os.remove(os.path.join(REPLAY, f))
    t0 = time.time(); work = Work(); code = 2
    try:
        code = decide(pid, seed, tier, a, work, t0)
    except Exception:
        traceback.print_exc()
        print(f"ERROR: no answer for {pid}")
    finally:
        work.close()
    sys.stdout.flush()
    sys.exit(code)


def decide(pid, seed, tier, a, work, t0):
    known = dict(findings(pid))
    proof = None
    if not a.no_proof:
        try:
            from pydv import props
            proof = props.prove(pid, REPO, tier, seed) if props.has(pid) else None
        except ImportError: proof = None
    bounded = []
    if not a.no_runs:
        if pid in CORE: bounded.append(("core", core_part(pid, seed, tier, work)))
        if pid in SWEEP: bounded.append(("sweep", sweep_part(pid, seed, tier, work)))
        if pid in SWEEP and not any(f["key"] not in known for _, b in bounded for f in b["failures"]):
            from pydv import optprops
            cls = sorted(set(optprops.changed_classes(REPO)) | set(proof["focus"] if proof else []))[:60]      # more runs where the code is not the reviewed one or the verifier gave no answer
            if cls and not (proof and proof["failed"]) and (tier == "thorough" or time.time() < DEADLINE - 150):
                bounded.append(("classes to look at", sweep_part(pid, seed + 500, tier, work, only=set(cls), n=max(20, min(400, 1600 // len(cls))))))
    fails = [f for _, b in bounded for f in b["failures"]]
    # a failed proof obligation: look for a concrete input on the real code first
    pf = [o for o in (proof["failed"] if proof else []) if o.get("key") not in known]
    new = [f for f in fails if f["key"] not in known]
    if pf and not new and pid in SWEEP and not a.no_runs:
        cls = sorted({c for o in pf for c in o.get("classes", [])})
        if cls:
            for rnd in range(1, 4):
                if tier != "thorough" and time.time() > DEADLINE - 100: break
                b = sweep_part(pid, seed + 1000 * rnd, tier, work, only=set(cls), n=max(20, min(400, 1600 // len(cls))))
                bounded.append((f"directed search {rnd}", b))
                new = [f for f in b["failures"] if f["key"] not in known]
                if new: break
    viol = []
    for k, f in enumerate(new[:5]):
        viol.append((write_replay(pid, k + 1, dict(property=pid, failure=f, obligations=pf[:5], how="the case is an input of harness/optruns.py (a search configuration) or harness/coreruns.py (seed, tier as recorded)", seed=seed, tier=tier)), f["msg"], ""))
    if pf and not new:
        for k, o in enumerate(pf[:5]):
            viol.append((write_replay(pid, f"obligation{k+1}", dict(property=pid, obligation=o)), f"obligation {o['name']} fails: {o.get('why','')}"[:300], " no-failing-input-found"))
    cov = {}
    n_ev = sum(b["evaluations"] for _, b in bounded); n_d = sum(b["distinct_nontrivial"] for _, b in bounded)
    samples = [s for _, b in bounded for s in b["samples"]][:8]
    notes = [n for _, b in bounded for n in b["notes"]]
    if bounded:
        cov.update(evaluations=n_ev, distinct_nontrivial=n_d, samples=samples,
                   rule="bounded part: searches / calls on the real code under the run-time contract; distinct = different evaluation trace or different case description")
    level = "exploration"; assumptions = []
    if proof:
        level = props.LEVEL.get(pid, "proof")
        cov.update({k: v for k, v in proof.items() if k not in ("failed", "assumptions")})
        assumptions = proof["assumptions"]
    cov["bounded_parts"] = [dict(part=n, evaluations=b["evaluations"], distinct_nontrivial=b["distinct_nontrivial"]) for n, b in bounded]
    cov["notes"] = (proof or {}).get("notes", []) + notes
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not proof and not bounded: raise RuntimeError("nothing was checked")
    if proof and proof["obligations"] == 0: raise RuntimeError("no obligation was generated")
    json.dump(ev, open(os.path.join(OUT, pid + ".json"), "w"), indent=1, default=str)
    for key, text in known.items(): print(f"KNOWN-FINDING: property={pid} {text}")
    if proof: print(f"{pid}: {proof['discharged']}/{proof['obligations']} obligations discharged, {len(pf)} failed, {proof.get('undecided',0)} undecided")
    if bounded: print(f"{pid}: bounded part: {n_ev} evaluations, {n_d} distinct, {len(fails)} failures ({len(new)} new)")
    for path, msg, tail in viol:
        print(f"  {msg}")
        print(f"VIOLATION property={pid} replay={path}{tail}")
    print(f"{pid}: {ev['wall_s']} s")
    return 1 if viol else 0


if __name__ == "__main__": main()
