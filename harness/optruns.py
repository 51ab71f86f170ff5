#!/usr/bin/env python
"""Run-time contract monitor for the optimizers (bounded; runs the real code of /repo under /opt/venv).

It observes only public behaviour: the arguments of the user's objective function, the population at the entry of
every evolve() call and at the end of solve(), the returned agent and the public history.
Used (a) as the labelled bounded stand-in for classes the prover does not reach, and (b) to look for a concrete
failing input once a proof obligation has failed.
"""
import os, sys, json, time, random, hashlib, traceback, warnings, argparse, signal
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")
import numpy as np
np.seterr(all="ignore")
import logging
logging.disable(logging.CRITICAL)

PARALLEL = ("thread", "process")


class AdvGenerator(np.random.Generator):
    """A legal numpy Generator whose draws are often extreme values (all of them possible outcomes)."""
    def __init__(self, seed, prob=0.3):
        super().__init__(np.random.PCG64(seed))
        self._r = random.Random(seed)
        self._p = prob

    def _hit(self):
        return self._r.random() < self._p

    def random(self, size=None, dtype=np.float64, out=None):
        x = super().random(size, dtype)
        if self._hit():
            v = self._r.choice([1e-12, 1 - 1e-12, 0.5, 0.05, 0.95, 0.25, 0.75])
            if size is None: return v
            x = np.full(np.shape(x), v)
        return x

    def uniform(self, low=0.0, high=1.0, size=None):
        x = super().uniform(low, high, size)
        if self._hit():
            v = self._r.choice([1e-12, 1 - 1e-12, 0.5, 0.05, 0.95])
            y = np.asarray(low, dtype=float) + (np.asarray(high, dtype=float) - np.asarray(low, dtype=float)) * v
            x = np.broadcast_to(y, np.shape(x)).copy() if np.shape(x) else float(y)
        return x

    def normal(self, loc=0.0, scale=1.0, size=None):
        x = super().normal(loc, scale, size)
        if self._hit():
            v = self._r.choice([-6., 6., -1e-9, 1e-9, 3.])
            y = np.asarray(loc, dtype=float) + np.asarray(scale, dtype=float) * v
            x = np.broadcast_to(y, np.shape(x)).copy() if np.shape(x) else float(y)
        return x

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        x = super().integers(low, high, size, dtype, endpoint)
        if self._hit() and np.ndim(low) == 0 and (high is None or np.ndim(high) == 0):
            lo, hi = (0, low) if high is None else (low, high)
            hi = hi if endpoint else hi - 1
            v = int(self._r.choice([lo, hi]))
            if size is None: return np.int64(v)
            x = np.full(np.shape(x), v)
        return x


def landscape(kind, dim):
    rr = np.random.RandomState(12345 + dim)
    w = 1.0 + rr.rand(dim); c = rr.randn(dim)
    if kind == "sphere":
        return lambda x: float(np.sum(w * (np.asarray(x, dtype=float) - c) ** 2))
    if kind == "rugged":
        return lambda x: float(np.sum(w * np.sin(7.3 * np.asarray(x, dtype=float) + c)) + 0.01 * np.sum(np.asarray(x, dtype=float) * w))
    if kind == "neg":       # negative valued
        return lambda x: float(-1000. + np.sum(w * (np.asarray(x, dtype=float) - c) ** 2) / 10.)
    if kind == "plateau":   # many ties
        return lambda x: float(np.floor(np.sum(w * np.abs(np.asarray(x, dtype=float) - c)) / 20.))
    if kind == "linear":    # optimum on the boundary
        return lambda x: float(np.sum(w * np.asarray(x, dtype=float)))
    if kind == "multi":
        return lambda x: [float(np.sum(w * np.asarray(x, dtype=float))), float(np.sum((np.asarray(x, dtype=float) - c) ** 2))]
    raise KeyError(kind)


def make_bounds(kind):
    from mealpy import FloatVar, IntegerVar, BinaryVar, BoolVar, StringVar, CategoricalVar, PermutationVar
    if kind == "float":
        return FloatVar(lb=[-10., -1., 2., -100., 0.], ub=[10., 3., 10., -50., 1.], name="x")
    if kind == "float2":
        return FloatVar(lb=[-5.] * 8, ub=[5.] * 8, name="x")
    if kind == "float3":
        return FloatVar(lb=[-5., 0., 1.], ub=[5., 0.5, 40.], name="x")
    if kind == "odd":          # bounds without an exact binary representation
        return FloatVar(lb=[0.1, -0.3, 1.1, -0.7], ub=[0.7, 0.6, 1.3, 2.1], name="x")
    if kind == "float1":
        return FloatVar(lb=-5., ub=10., name="x")
    if kind == "int":
        return IntegerVar(lb=[-5, 0, 3, -20], ub=[5, 1, 9, -10], name="x")
    if kind == "perm":
        return PermutationVar(valid_set=list(range(7)), name="x")
    if kind == "bin":
        return BinaryVar(n_vars=6, name="x")
    if kind == "mixed":
        return [FloatVar(lb=(-3., 1.), ub=(4., 9.), name="f"), IntegerVar(lb=(-4, 0), ub=(6, 5), name="i"), BinaryVar(n_vars=2, name="b"),
                StringVar(valid_sets=("a", "b", "c"), name="s"), PermutationVar(valid_set=(1, 2, 3, 4), name="p"), BoolVar(n_vars=1, name="o")]
    raise KeyError(kind)


class Stop(Exception): pass


class Monitor:
    def __init__(self, cfg):
        self.cfg = cfg; self.bad = {}; self.evals = []; self.n_evals = 0

    def report(self, pid, msg):
        self.bad.setdefault(pid, [])
        if len(self.bad[pid]) < 4: self.bad[pid].append(msg)


# hyper-parameters whose default is only accepted with many epochs
SMALL = {"CHIO.DevCHIO": dict(max_age=1), "CHIO.OriginalCHIO": dict(max_age=1), "CRO.OCRO": dict(restart_count=2),
         "GSKA.OriginalGSKA": dict(kg=2), "WOA.HI_WOA": dict(feedback_max=2)}
# optimizers that open with a step of their own on the initial population (opposition, branching, a second group, ...)
OPENING = {"GWO.OGWO", "HCO.OriginalHCO", "SARO.DevSARO", "SARO.OriginalSARO", "SLO.ImprovedSLO", "SLO.ModifiedSLO", "TPO.DevTPO",
           "TS.OriginalTS", "TWO.EnhancedTWO", "TWO.OppoTWO"}


def construct(cls, epoch, pop_size, kwargs):
    errs = None
    small = SMALL.get(f"{cls.__module__.split('.')[-1]}.{cls.__name__}")
    if small and epoch < 30: kwargs = {**small, **kwargs}; epoch = max(epoch, 4)
    for n in (pop_size, 20, 30, 50, 100):
        try:
            return cls(epoch=epoch, pop_size=n, **kwargs)
        except ValueError as e:
            errs = e
        except TypeError as e:
            return cls(epoch=epoch, **kwargs)
    raise errs


def strip(a, b):
    return np.array_equal(np.asarray(a), np.asarray(b))


def run(cfg):
    """One monitored search. Returns {'bad': {pid: [msg]}, 'error':..., 'digest':..., 'stats':...}"""
    import mealpy
    from mealpy.utils.problem import Problem
    mon = Monitor(cfg)
    cls = get_classes()[cfg["cls"]]
    mode, minmax, seed = cfg["mode"], cfg["minmax"], cfg["seed"]
    bounds = make_bounds(cfg["bounds"])
    lb = np.concatenate([b.lb for b in (bounds if isinstance(bounds, list) else [bounds])])
    ub = np.concatenate([b.ub for b in (bounds if isinstance(bounds, list) else [bounds])])
    dim = len(lb)
    fn = landscape(cfg["land"], dim)
    adv = cfg.get("adv", 0)
    trace = hashlib.sha1()
    keep = cfg.get("trace", False)
    import threading
    lock = threading.Lock()

    def inside(x):
        x = np.asarray(x)
        if x.shape != (dim,): return f"shape {x.shape} instead of ({dim},)"
        x = x.astype(float)
        if np.any(np.isnan(x)):
            return None if adv else "NaN coordinate"
        if np.any(x < lb) or np.any(x > ub):
            k = int(np.argmax((x < lb) | (x > ub)))
            return f"coordinate {k} = {x[k]!r} outside [{lb[k]!r}, {ub[k]!r}]"
        return None

    def obj(x):
        with lock:
            mon.n_evals += 1
            xb = np.asarray(x, dtype=float).tobytes()
            trace.update(xb)
            if cfg.get("start") is not None: seen_pos.add(xb)
        m = inside(x)
        if m: mon.report("C01", f"objective evaluated at a position outside the domain: {m} (evaluation {mon.n_evals})")
        return fn(x)

    prob = dict(bounds=bounds, minmax=minmax, obj_func=obj, log_to=None, save_population=True)
    weights = None
    if cfg["land"] == "multi":
        weights = [0.7, 0.3]; prob["obj_weights"] = weights

    def fit_of(x):
        r = fn(x)
        return float(np.dot(weights, r)) if weights else float(r)
    import io, contextlib
    res = {"cfg": cfg, "bad": mon.bad, "error": None}
    opt = construct(cls, cfg["epoch"], cfg["pop_size"], cfg.get("kwargs", {}))
    better = (lambda a, b: a < b) if minmax == "min" else (lambda a, b: a > b)
    if adv:
        import mealpy.optimizer as mo
        orig = np.random.default_rng
        class FakeNp:
            pass
    if cfg.get("warm") is not None:       # the optimizer has been used before, on another problem
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            try: opt.solve(dict(bounds=make_bounds("float2"), minmax="max", obj_func=landscape("rugged", 8), log_to=None), mode=mode,
                           n_workers=(3 if mode in PARALLEL else None), seed=cfg["warm"])
            except Exception: opt = construct(cls, cfg["epoch"], cfg["pop_size"], cfg.get("kwargs", {}))
    snaps = []          # population snapshots at the end of epochs
    hist_snaps = []
    real_evolve = opt.evolve

    def check_pop(where):
        pop = opt.pop
        for k, ag in enumerate(pop):
            m = inside(ag.solution)
            if m: mon.report("C01", f"population member {k} at {where}: {m}")
            if ag.target is None:
                mon.report("C02", f"population member {k} at {where} has no target"); continue
            f = fit_of(ag.solution)
            if not (abs(f - float(ag.target.fitness)) <= 1e-9 * max(1, abs(f)) or (np.isnan(f))):
                mon.report("C02", f"population member {k} at {where}: reported fitness {float(ag.target.fitness)!r}, objective at its position {f!r}")
        gb = opt.g_best
        if gb is not None:
            f = fit_of(gb.solution)
            if not (abs(f - float(gb.target.fitness)) <= 1e-9 * max(1, abs(f)) or np.isnan(f)):
                mon.report("C02", f"best agent at {where}: reported fitness {float(gb.target.fitness)!r}, objective at its position {f!r}")
            m = inside(gb.solution)
            if m: mon.report("C01", f"best agent at {where}: {m}")
        snaps.append([float(a.target.fitness) if a.target is not None else float("nan") for a in pop])

    def snap_hist():
        h = opt.history
        def s(a): return (np.array(a.solution, dtype=float).copy(), float(a.target.fitness))
        return {"gb": [s(a) for a in h.list_global_best], "cb": [s(a) for a in h.list_current_best],
                "gw": [s(a) for a in h.list_global_worst], "cw": [s(a) for a in h.list_current_worst],
                "pop": [[s(a) for a in p] for p in h.list_population]}
    first_epoch_state = {}
    seen_pos = set()

    def evolve(epoch):
        if cfg.get("term") and mon.n_evals - base["n"] != opt.nfe_counter:
            mon.report("C06", f"at entry of epoch {epoch}: counter {opt.nfe_counter}, objective calls {mon.n_evals - base['n']}")
        if epoch == 1 and cfg.get("start") is not None:
            got = [np.asarray(a.solution, dtype=float) for a in opt.pop]
            first_epoch_state["pop"] = got
            missing = [k for k, x in enumerate(start) if np.asarray(x, dtype=float).tobytes() not in seen_pos]
            if missing: mon.report("C20", f"starting solution {missing[0]} was not evaluated before the first epoch")
        check_pop(f"end of epoch {epoch - 1}")
        hist_snaps.append(snap_hist())
        mon.epochs = epoch
        if cfg.get("termd") and epoch > 1 and "max_fe" in cfg["termd"] and mon.n_evals - base["n"] >= cfg["termd"]["max_fe"]:
            mon.report("C05", f"epoch {epoch} starts although {mon.n_evals - base['n']} evaluations were made, the limit is {cfg['termd']['max_fe']}")
        if deadline and time.time() > deadline: raise Stop("deadline")
        real_evolve(epoch)
    opt.evolve = evolve
    base = {"n": 0}
    deadline = time.time() + cfg.get("limit", 60)
    term = (cfg.get("termd") or dict(max_fe=10 ** 8)) if cfg.get("term") else None
    g = None
    start = None
    if cfg.get("start") is not None:
        rs = np.random.RandomState(cfg["start"])
        start = [lb + (ub - lb) * rs.rand(dim) for _ in range(opt.pop_size)]
    try:
        if cfg.get("gseed") is not None:
            np.random.seed(cfg["gseed"]); random.seed(cfg["gseed"])
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            pr = Problem(**prob)
            base["n"] = mon.n_evals
            if adv:
                import types
                real_rng = np.random.default_rng
                np.random.default_rng = lambda s=None: AdvGenerator((0 if s is None else int(s)) + adv, prob=cfg.get("advp", 0.3))
                try: g = opt.solve(pr, mode=mode, n_workers=(3 if mode in PARALLEL else None), termination=term, seed=seed, starting_solutions=start)
                finally: np.random.default_rng = real_rng
            else:
                st0 = (np.random.get_state()[1].tobytes(), np.random.get_state()[2], random.getstate())
                g = opt.solve(pr, mode=mode, n_workers=(3 if mode in PARALLEL else None), termination=term, seed=seed, starting_solutions=start)
                st1 = (np.random.get_state()[1].tobytes(), np.random.get_state()[2], random.getstate())
                if st0 != st1:
                    mon.report("C07", "the search drew from (or reseeded) a process-wide random generator")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f"{os.path.relpath(t.filename, REPO)}:{t.lineno}" for t in tb if t.filename.startswith(REPO)]
        res["error"] = f"{type(e).__name__}: {e} @ {loc[-1] if loc else ''}"
        res["digest"] = trace.hexdigest() + "E"
        return res
    E = mon.epochs
    lim = cfg.get("termd") or {}
    if E < opt.epoch:
        why = [E >= lim["max_epoch"] if "max_epoch" in lim else False, mon.n_evals - base["n"] >= lim["max_fe"] if "max_fe" in lim else False, "max_early_stop" in lim]
        if not any(why): mon.report("C05", f"the search ended after {E} of {opt.epoch} epochs although no limit was reached")
    if "max_epoch" in lim and E != min(opt.epoch, lim["max_epoch"]) and "max_fe" not in lim and "max_early_stop" not in lim:
        mon.report("C05", f"{E} epochs were executed with epoch={opt.epoch} and max_epoch={lim['max_epoch']}")
    check_pop(f"end of epoch {E}")
    if cfg.get("term") and mon.n_evals - base["n"] != opt.nfe_counter:
        mon.report("C06", f"after the last epoch: counter {opt.nfe_counter}, objective calls {mon.n_evals - base['n']}")
    h = opt.history
    fin = snap_hist()
    # C03
    gbf = [float(v) for v in h.list_global_best_fit]
    eps = 0.0
    for k in range(len(gbf)):
        if k and better(gbf[k - 1], gbf[k]):
            mon.report("C03", f"best-so-far fitness worsened from {gbf[k-1]!r} (epoch {k}) to {gbf[k]!r} (epoch {k+1})")
        for j in (0, k + 1):
            if j < len(snaps):
                for f in snaps[j]:
                    if not np.isnan(f) and better(f, gbf[k]):
                        mon.report("C03", f"best-so-far fitness {gbf[k]!r} of epoch {k+1} is worse than a population member ({f!r}) at the end of epoch {j}"); break
    if gbf and g is not None and float(g.target.fitness) != gbf[-1] and not np.isnan(gbf[-1]):
        mon.report("C03", f"returned fitness {float(g.target.fitness)!r} differs from the last recorded best-so-far {gbf[-1]!r}")
    # C04
    n = E
    for nm in ("list_global_best", "list_current_best", "list_epoch_time", "list_global_best_fit", "list_current_best_fit", "list_population",
               "list_diversity", "list_exploitation", "list_exploration", "list_global_worst", "list_current_worst"):
        L = getattr(h, nm)
        if len(L) != n: mon.report("C04", f"history {nm} has {len(L)} entries after {n} epochs")
    if h.epoch != n: mon.report("C04", f"history reports {h.epoch} epochs, {n} were executed")
    ex, ei = np.asarray(h.list_exploration, float), np.asarray(h.list_exploitation, float)
    if len(ex) == len(ei) and np.any(np.abs(ex + ei - 100) > 1e-9):
        mon.report("C04", "exploration + exploitation differs from 100")
    if len(ex) and not np.any(np.isnan(ex)) and (np.min(ex) < -1e-9 or np.max(ex) > 100 + 1e-9):
        mon.report("C04", f"exploration between {np.min(ex)!r} and {np.max(ex)!r}, not between 0 and 100")
    for k in range(min(n, len(snaps) - 1)):
        fs = [f for f in snaps[k + 1]]
        if np.any(np.isnan(fs)): continue
        if k < len(h.list_current_best_fit):
            cb = float(h.list_current_best_fit[k]); want = min(fs) if minmax == "min" else max(fs)
            if cb != want: mon.report("C04", f"current best fitness of epoch {k+1} is {cb!r}, best of that population is {want!r}")
        if k < len(h.list_current_worst):
            # the agent as recorded
            src = hist_snaps[k + 1]["cw"][-1][1] if k + 1 < len(hist_snaps) else float(h.list_current_worst[k].target.fitness)
            want = max(fs) if minmax == "min" else min(fs)
            if src != want: mon.report("C04", f"current worst fitness of epoch {k+1} is {src!r}, worst of that population is {want!r}")
    # C21: entries never change after being recorded (hist_snaps[k] was taken at the entry of epoch k+1 and has k+1 entries, trimmed by one at the end)
    def same(a, b): return np.array_equal(a[0], b[0], equal_nan=True) and (a[1] == b[1] or (np.isnan(a[1]) and np.isnan(b[1])))
    for k, hs in enumerate(hist_snaps):
        for nm, lab in (("gb", "best-so-far"), ("cb", "current best"), ("gw", "worst-so-far"), ("cw", "current worst")):
            for j in range(1, len(hs[nm])):
                if j - 1 < len(fin[nm]) and not same(hs[nm][j], fin[nm][j - 1]):
                    mon.report("C21", f"the {lab} agent recorded for epoch {j} changed after epoch {k}: fitness {hs[nm][j][1]!r} became {fin[nm][j-1][1]!r}" +
                               ("" if np.array_equal(hs[nm][j][0], fin[nm][j-1][0]) else " (its position changed)"))
        for j, pp in enumerate(hs["pop"]):
            if j < len(fin["pop"]):
                for q, (a, b) in enumerate(zip(pp, fin["pop"][j])):
                    if not same(a, b): mon.report("C21", f"agent {q} of the population recorded for epoch {j+1} changed after epoch {k}"); break
    for k in range(min(n, len(fin["gb"]), len(gbf))):
        if fin["gb"][k][1] != gbf[k] and not np.isnan(gbf[k]):
            mon.report("C21", f"best-so-far agent of epoch {k+1} has fitness {fin['gb'][k][1]!r}, recorded series says {gbf[k]!r}")
        cbf = float(h.list_current_best_fit[k]) if k < len(h.list_current_best_fit) else None
        if cbf is not None and k < len(fin["cb"]) and fin["cb"][k][1] != cbf and not np.isnan(cbf):
            mon.report("C21", f"current best agent of epoch {k+1} has fitness {fin['cb'][k][1]!r}, recorded series says {cbf!r}")
    # C20
    if start is not None and cfg["cls"] not in OPENING:
        got = first_epoch_state.get("pop", [])
        ok = len(got) == len(start)
        if ok:
            if opt.sort_flag or cfg.get("unordered"):
                A = sorted(map(tuple, got)); B = sorted(map(tuple, start)); ok = A == B
            else:
                ok = all(np.array_equal(a, b) for a, b in zip(got, start))
        if not ok: mon.report("C20", f"initial population ({len(got)} agents) is not the given starting solutions ({len(start)})")
    res["digest"] = trace.hexdigest()
    res["hist"] = hashlib.sha1(np.array(gbf + [float(np.sum(g.solution))]).tobytes()).hexdigest()
    res["n_evals"] = mon.n_evals
    return res


_CL = None
def get_classes():
    global _CL
    if _CL is None:
        import mealpy
        _CL = {f"{c.__module__.split('.')[-1]}.{n}": c for n, c in mealpy.get_all_optimizers(verbose=False).items()}
    return _CL


def safe_run(cfg):
    try:
        return run(cfg)
    except BaseException as e:     # construction problems and harness errors
        return {"cfg": cfg, "bad": {}, "error": f"HARNESS {type(e).__name__}: {e}", "digest": None}


def _alarm(*a): raise TimeoutError("run limit")


DEADLINE = [None]
def pool_run(cfg):
    if DEADLINE[0] and time.time() > DEADLINE[0]: return {"cfg": cfg, "bad": {}, "error": "HARNESS skipped: no time left", "digest": None}
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(int(cfg.get("limit", 60)) + 5)
    try: return safe_run(cfg)
    finally: signal.alarm(0)


def run_many(cfgs, workers=8):
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    get_classes()
    if workers <= 1: return [pool_run(c) for c in cfgs]
    with ctx.Pool(workers, maxtasksperchild=200) as pool:
        return pool.map(pool_run, cfgs, chunksize=4)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("--cfgs"); ap.add_argument("--out"); ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--deadline", type=float)
    a = ap.parse_args(); DEADLINE[0] = a.deadline
    if a.list:
        print(json.dumps(sorted(get_classes()))); sys.exit(0)
    cfgs = json.load(open(a.cfgs))
    r = run_many(cfgs, a.workers)
    json.dump(r, open(a.out, "w"), default=str)
