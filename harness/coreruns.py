#!/usr/bin/env python
"""Bounded run-time contract checks of the core functions (one function run_Cxx per property).

Every oracle below is written from the property's statement; it never calls the function it judges to obtain the
expected value.  These checks are labelled bounded: they never count as proof.  They serve (a) as the stand-in for
functions outside the prover's reach and (b) as the search for a concrete failing input.
"""
import os, sys, json, math, time, tempfile, shutil, itertools, io, contextlib, argparse, inspect, threading, random, pickle
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import mealpy
from mealpy import optimizer as mo
from mealpy.optimizer import Optimizer
from mealpy.utils.agent import Agent
from mealpy.utils.target import Target
from mealpy.utils.problem import Problem
from mealpy.utils.termination import Termination
from mealpy.utils.history import History
from mealpy.utils.validator import Validator
from mealpy.utils import space as SP
from mealpy.utils import validator as VAL
from mealpy.utils import transfer, io as mio
from mealpy.utils.chaotic import ChaoticMap
from mealpy.utils.fuzzy import FuzzySystem
from mealpy.tuner import ParameterGrid, Tuner
from mealpy.multitask import Multitask
import pandas as pd


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        yield


def mk(fit, pos=None, **kw):
    """An agent with the given fitness."""
    a = Agent(np.array([float(fit), 1.0] if pos is None else pos, dtype=float), Target([fit]), **kw)
    return a


# ------------------------------------------------------------------------------------------------ C05
class Clock:
    def __init__(self): self.t = 1000.0
    def perf_counter(self): return self.t
    def __getattr__(self, k): return getattr(time, k)


class Script(Optimizer):
    """A minimal optimizer: epoch k gives the population the scripted best fitness, advances the clock and evaluates n agents."""
    def __init__(self, epoch=10, pop_size=3, script=None, clock=None, dts=None, fes=None, **kw):
        super().__init__(**kw)
        self.epoch = epoch; self.pop_size = pop_size; self.script = script; self.clock = clock; self.dts = dts; self.fes = fes
        self.set_parameters(["epoch", "pop_size"]); self.ran = 0; self.calls = 0

    def evolve(self, epoch):
        self.ran += 1
        self.problem.value = self.script[epoch]
        n = self.fes[epoch]
        for k in range(n):
            a = self.generate_agent()
            self.pop[k % len(self.pop)] = a
        if self.clock is not None: self.clock.t += self.dts[epoch]


class SProblem(Problem):
    def __init__(self, minmax, v0):
        super().__init__(bounds=SP.FloatVar(lb=(0., 0.), ub=(1., 1.)), minmax=minmax, log_to=None)
        self.value = v0; self.calls = 0
    def obj_func(self, x):
        self.calls += 1
        return self.value


def expected_stop(limits, eps, E, best, fe, tm):
    """first epoch at which a rule holds (best[0] = initial)"""
    for k in range(1, E + 1):
        run = 0
        for j in range(1, k + 1):
            run = run + 1 if abs(best[j] - best[j - 1]) <= eps else 0
        me, mf, mt, ms = limits
        if me is not None and k >= me: return k
        if mf is not None and fe[k] >= mf: return k
        if mt is not None and tm[k] >= mt: return k
        if ms is not None and run >= ms: return k
    return E


def run_C05(rep):
    r = rep.r
    # 1. the decision function against its specification
    for _ in range(rep.scale(3000, 60000)):
        lim = [r.choice([None, r.randint(1, 6)]), r.choice([None, r.randint(10, 40)]), r.choice([None, r.choice([0.5, 1.0, 3.25, 10.])]), r.choice([None, r.randint(1, 5)])]
        if all(v is None for v in lim): lim[r.randrange(4)] = 10
        t = Termination(max_epoch=lim[0], max_fe=lim[1], max_time=lim[2], max_early_stop=lim[3])
        st = r.choice([0.0, 5.0, 1e3])
        t.set_start_values(0, 0, st, 0)
        e, f, es = r.randint(0, 8), r.randint(0, 45), r.randint(0, 7)
        el = r.choice([0., 0.25, 0.5, 0.75, 1.0, 3.25, 3.3, 10., 12.])
        got = bool(t.should_terminate(e, f, st + el, es))
        want = (lim[0] is not None and e >= lim[0]) or (lim[1] is not None and f >= lim[1]) or (lim[2] is not None and el >= lim[2]) or (lim[3] is not None and es >= lim[3])
        c = dict(limits=lim, epoch=e, fe=f, elapsed=el, repeated=es)
        rep.case(c, want)
        rep.check(got == want, "should_terminate", f"should_terminate said {got}, the rules say {want}", c)
    # 2. repeated-best counter
    for _ in range(rep.scale(1500, 20000)):
        n = r.randint(1, 9); eps = r.choice([1e-10, 0.0, 0.25, 1.0])
        v = [r.choice([0., 0.1, 0.25, 1., -1., 2.])]
        for _k in range(n): v.append(v[-1] + r.choice([0., 0., 0., 1e-11, 0.25, -0.25, 0.3, -1., 2.]))
        h = History(log_to=None); h.list_global_best = [mk(x) for x in v]
        run = 0
        for a, b in zip(v, v[1:]): run = run + 1 if abs(a - b) <= eps else 0
        got = h.get_global_repeated_times(eps)
        rep.case((v, eps), run > 0)
        rep.check(int(got) == run, "repeated_times", f"counted {got} repeated epochs instead of {run}", dict(best=v, eps=eps))
    # 3. whole searches with scripted progress and a scripted clock
    clock = Clock(); real = mo.time
    mo.time = clock
    try:
        shared = None
        for it in range(rep.scale(500, 5000)):
            E = r.randint(1, 9); minmax = r.choice(["min", "max"]); sg = 1 if minmax == "min" else -1
            npop = r.randint(2, 5)
            val = [r.choice([5., 1., -3.])]
            for k in range(E): val.append(val[-1] + sg * r.choice([0., 0., 0., -1e-11, -0.5, -1e-3, 0.5]))
            dts = [0] + [r.choice([0., 0.25, 0.5, 1.]) for _ in range(E)]
            fes = [0] + [r.choice([0, npop, npop, 1, npop + 3]) for _ in range(E)]
            lim = [r.choice([None, None, r.randint(1, E + 2)]), r.choice([None, r.randint(10, 40)]), r.choice([None, r.choice([0.25, 0.5, 1.0, 2.5])]), r.choice([None, r.randint(1, 4)])]
            eps = r.choice([1e-10, 1e-10, 0.6])
            kind = r.choice(["none", "dict", "obj", "obj"])
            if all(x is None for x in lim): kind = "none"
            if kind == "none": lim = [None] * 4
            pr = SProblem(minmax, val[0])
            opt = Script(epoch=E, pop_size=npop, script=val, clock=clock, dts=dts, fes=fes)
            spec = {k: v for k, v in zip(("max_epoch", "max_fe", "max_time", "max_early_stop"), lim) if v is not None}
            if eps != 1e-10: spec["epsilon"] = eps
            term = None if kind == "none" else (dict(spec) if kind == "dict" else Termination(**spec))
            if kind == "obj" and r.random() < 0.3:      # the same instance may be used for several searches
                w = Script(epoch=1, pop_size=npop, script=val, clock=clock, dts=[0, 3.], fes=[0, 30])
                with quiet(): w.solve(SProblem(minmax, val[0]), termination=term, seed=1)
            twice = r.random() < 0.2
            if twice:           # an optimizer may be used for several searches
                with quiet(): opt.solve(SProblem(minmax, val[0]), termination=dict(max_epoch=1), seed=2)
                opt.ran = 0; pr.value = val[0]
            clock.t = r.choice([0.0, 77.0, 1e4])
            t0 = clock.t
            start = r.random() < 0.3
            with quiet():
                opt.solve(pr, termination=term, seed=r.randrange(100), mode=r.choice(["single", "swarm"]) if not start else "single")
            # best-so-far per epoch (only agents evaluated in the epoch can improve it)
            best = [val[0]]; cur = [val[0]] * npop
            fe, tm = [npop], [0.]
            for k in range(1, E + 1):
                for j in range(fes[k]): cur[j % npop] = val[k]
                c = min(cur) if minmax == "min" else max(cur)
                best.append(min(best[-1], c) if minmax == "min" else max(best[-1], c))
                fe.append(fe[-1] + fes[k]); tm.append(tm[-1] + dts[k])
            want = expected_stop(lim, eps, E, best, fe, tm)
            c = dict(epochs=E, minmax=minmax, limits=spec, given_as=kind, values=val, evaluations=fes, clock=dts, pop_size=npop, second_search=twice)
            rep.case(c, kind != "none" and want < E)
            rep.check(opt.ran == want, "search stops", f"{opt.ran} epochs were executed, the rules stop after {want}", c)
            rep.check(opt.history.epoch == want, "history.epoch", f"history reports {opt.history.epoch} epochs, {want} expected", c)
    finally:
        mo.time = real
    # 4. real clock: max_time
    t = Termination(max_time=0.15)
    clockless = Script(epoch=10 ** 5, pop_size=2, script=[0.] * (10 ** 5 + 1), fes=[0] * (10 ** 5 + 1))
    s = time.time()
    with quiet(): clockless.solve(SProblem("min", 0.), termination=t, seed=1)
    d = time.time() - s
    rep.case("max_time=0.15 real clock")
    rep.check(0.14 <= d and clockless.ran < 10 ** 5, "max_time real clock", f"max_time=0.15 ended after {d:.3f} s and {clockless.ran} epochs")
    # 5. a termination without any limit is rejected
    rep.check(raises(Termination)[0] == "raised", "no limit", "Termination() without any limit is accepted")


# ------------------------------------------------------------------------------------------------ C08
_DELAY = None
_COUNT = None


def delayed_obj(x):
    """deterministic, order-sensitive value; the delay depends on the position, so completion order differs from submission order"""
    import time as _t
    v = float(np.sum(np.asarray(x, dtype=float) * np.arange(1, len(x) + 1)))
    if _DELAY: _t.sleep(_DELAY * (abs(hash(round(v, 6))) % 7) / 7.)
    if _COUNT is not None:
        with _COUNT.get_lock(): _COUNT.value += 1
    return v


def val_of(x): return float(np.sum(np.asarray(x, dtype=float) * np.arange(1, len(x) + 1)))


class Plain(Optimizer):
    def __init__(self, epoch=2, pop_size=10, **kw):
        super().__init__(**kw)
        self.epoch = self.validator.check_int("epoch", epoch, [1, 100000]); self.pop_size = self.validator.check_int("pop_size", pop_size, [1, 10000])
        self.set_parameters(["epoch", "pop_size"]); self.sort_flag = False

    def evolve(self, epoch):
        pop = []
        for k in range(self.pop_size):
            pos = self.correct_solution(self.pop[k].solution + self.generator.normal(0, 1, self.problem.n_dims))
            a = self.generate_empty_agent(pos)
            pop.append(a)
            if self.mode not in self.AVAILABLE_MODES: a.target = self.get_target(pos); self.pop[k] = a
        if self.mode in self.AVAILABLE_MODES: self.pop = self.update_target_for_population(pop)


def prepared(mode, n_workers, dim=3, pop_size=10, seed=1, bounds=None):
    o = Plain(epoch=1, pop_size=pop_size)
    with quiet():
        o.check_problem(dict(obj_func=delayed_obj, bounds=bounds or SP.FloatVar(lb=[-5.] * dim, ub=[7.] * dim), minmax="min", log_to=None), seed)
        o.check_mode_and_workers(mode, n_workers)
    return o


def run_C08(rep):
    global _DELAY, _COUNT
    import multiprocessing as mp
    r = rep.r
    _COUNT = mp.Value("i", 0)
    plan = [("thread", rep.scale(30, 300)), ("swarm", rep.scale(60, 400)), ("process", rep.scale(7, 60)), ("single", rep.scale(30, 200))]
    for mode, n in plan:
        for it in range(n):
            size = r.choice([1, 2, 3, 7, 12, 23]); nw = r.choice([None, 2, 3, 5]) if mode in ("thread", "process") else None
            dim = r.randint(1, 4); seed = r.randrange(10 ** 6)
            _DELAY = 0.004 if mode in ("thread", "process") else None
            o = prepared(mode, nw, dim, size, seed)
            c = dict(mode=mode, workers=nw, size=size, dim=dim, seed=seed)
            rep.case(c, size > 1)
            # creation
            o.nfe_counter = 0; _COUNT.value = 0
            want_n = size if r.random() < 0.7 else size + 2
            pop = o.generate_population(None if want_n == size else want_n)
            rep.check(len(pop) == want_n, f"generate size {mode}", f"generate_population({want_n}) gave {len(pop)} agents in {mode} mode", c)
            rep.check(o.nfe_counter == len(pop) == _COUNT.value, f"generate count {mode}", f"{o.nfe_counter} counted, {_COUNT.value} objective calls, {len(pop)} agents created in {mode} mode", c)
            for a in pop:
                x = np.asarray(a.solution)
                rep.check(x.shape == (dim,) and np.all(x >= -5) and np.all(x <= 7), f"generate feasible {mode}", f"created an infeasible position {x} in {mode} mode", c)
                rep.check(a.target is not None and a.target.fitness == val_of(x), f"generate target {mode}", f"created agent's target is not its objective value in {mode} mode", c)
            rep.check(len({tuple(a.solution) for a in pop}) == len(pop), f"generate independent {mode}", f"{len(pop)} agents created in {mode} mode share positions", c)
            rep.check(len({id(a) for a in pop}) == len(pop), f"generate identity {mode}", "the same agent object appears twice", c)
            # evaluation
            pos = [np.array([r.uniform(-5, 7) for _ in range(dim)]) for _ in range(size)]
            for k in range(1, size):         # equal and nearly equal positions are evaluated on their own, too
                if r.random() < 0.3: pos[k] = pos[r.randrange(k)] + r.choice([0., 1e-12, 1e-9, 1e-7, 1e-5])
            ags = [o.generate_empty_agent(p.copy()) for p in pos]
            ids = [id(a) for a in ags]; keys = [a.id for a in ags]
            o.nfe_counter = 5; _COUNT.value = 0
            if mode == "single":
                out = o.update_target_for_population(ags)
                rep.check([id(a) for a in out] == ids, "single keeps", "single mode changed the population", c)
                continue
            out = o.update_target_for_population(ags)
            rep.check(len(out) == size and [id(a) for a in out] == ids, f"order {mode}", f"update_target_for_population changed the agents or their order in {mode} mode", c)
            for k, a in enumerate(out):
                rep.check(np.array_equal(a.solution, pos[k]), f"position {mode}", f"evaluation changed the position of agent {k} in {mode} mode", c)
                rep.check(a.target is not None and a.target.fitness == val_of(pos[k]), f"own target {mode}",
                          f"agent {k} got {a.target.fitness if a.target is not None else None}, its objective value is {val_of(pos[k])} in {mode} mode", c)
                rep.check(a.id == keys[k], f"ident {mode}", "agent identity changed", c)
            rep.check(o.nfe_counter - 5 == size == _COUNT.value, f"count {mode}", f"{o.nfe_counter - 5} counted, {_COUNT.value} calls for {size} agents in {mode} mode", c)
    _DELAY = None
    # the same search (same seed) evaluates the same agents in the sequential swarm mode and in the parallel modes
    for it in range(rep.scale(2, 15)):
        seed = r.randrange(1000)
        res = {}
        start = [np.array([r.uniform(-5, 7) for _ in range(3)]) for _ in range(6)]
        for mode in ("swarm", "thread", "process"):
            o = Plain(epoch=2, pop_size=6)
            with quiet(): g = o.solve(dict(obj_func=delayed_obj, bounds=SP.FloatVar(lb=[-5.] * 3, ub=[7.] * 3), minmax="min", log_to=None), mode=mode, n_workers=3, seed=seed, starting_solutions=start)
            res[mode] = [tuple(a.solution) + (a.target.fitness,) for a in o.pop]
        rep.case(dict(search_seed=seed))
        for mode in ("thread", "process"):
            rep.check(res[mode] == res["swarm"], f"modes agree {mode}", f"the population after 2 epochs differs between swarm and {mode} mode", dict(seed=seed))
    # check_mode_and_workers
    for m in ("swarm", "single", "thread", "process"):
        o = prepared(m, 3); rep.case(("mode", m))
        rep.check(o.mode == m, "mode kept", f"mode {m} became {o.mode}")
    o = Plain(); o.is_parallelizable = False
    with quiet():
        o.check_problem(dict(obj_func=delayed_obj, bounds=SP.FloatVar(lb=[0.], ub=[1.]), minmax="min", log_to=None), 1)
        for m in ("thread", "process"):
            o.check_mode_and_workers(m, 3); rep.case(("not parallelizable", m))
            rep.check(o.mode == "single", "fallback", f"a non-parallelizable optimizer runs in {o.mode} mode")
        rep.check(raises(o.check_mode_and_workers, "parallel", None)[0] == "raised", "bad mode", "an unknown mode is accepted")


# ------------------------------------------------------------------------------------------------ C09
def rand_var(r, kind=None, name="v"):
    """-> (variable, description, legal(decoded) -> bool, legal values to round-trip, all legal values or None)"""
    kind = kind or r.choice(["float", "int", "str", "cat", "seq", "perm", "bin", "tbin", "bool", "tbool"])
    scalar = r.random() < 0.4
    n = r.randint(1, 4)
    if kind == "float":
        def b():
            a = r.choice([r.uniform(-10, 10), r.uniform(-1e6, 1e6), 0., -3., 5.5]); w = r.choice([0., 1e-9, 1., 12.5, 1e6, r.uniform(0, 9)])
            return a, a + w
        bs = [b() for _ in range(1 if scalar else n)]
        lb, ub = [x for x, _ in bs], [y for _, y in bs]
        v = SP.FloatVar(lb=lb[0], ub=ub[0], name=name) if scalar else SP.FloatVar(lb=r.choice([tuple, list, np.array])(lb), ub=ub, name=name)
        legal = lambda x: len(x) == len(lb) and all(isinstance(e, float) and l <= e <= u for e, l, u in zip(x, lb, ub))
        vals = [[r.choice([l, u, min(u, max(l, r.uniform(l, u)))]) for l, u in bs] for _ in range(4)]
        return v, dict(kind=kind, lb=lb, ub=ub), legal, vals, None
    if kind == "int":
        def b():
            a = r.choice([r.randint(-10, 10), r.randint(-10 ** 6, 10 ** 6), 0, -5]); return a, a + r.choice([0, 1, 2, 3, 10, 100])
        bs = [b() for _ in range(1 if scalar else n)]
        lb, ub = [x for x, _ in bs], [y for _, y in bs]
        v = SP.IntegerVar(lb=lb[0], ub=ub[0], name=name) if scalar else SP.IntegerVar(lb=r.choice([tuple, list, np.array])(lb), ub=ub, name=name)
        legal = lambda x: len(x) == len(lb) and all(isinstance(e, (int, np.integer)) and l <= e <= u for e, l, u in zip(x, lb, ub))
        vals = [[r.randint(l, u) for l, u in bs] for _ in range(4)] + [list(lb), list(ub)]
        allv = None
        if len(bs) == 1 and bs[0][1] - bs[0][0] <= 5: allv = [[k] for k in range(bs[0][0], bs[0][1] + 1)]
        return v, dict(kind=kind, lb=lb, ub=ub), legal, vals, allv
    if kind in ("str", "cat"):
        pool = ["a", "b", "zz", "A", "", "10", "9", "lbl", "x y"] if kind == "str" else ["a", "b", 3, 1.5, None, "3", -7, "zz", False]
        def s(lo=1):
            L = r.sample(pool, r.randint(lo, 6))
            if r.random() < 0.25: L = L + [L[0]]        # repeated label
            return r.choice([tuple, list])(L)
        if scalar: sets = [s()]; v = (SP.StringVar if kind == "str" else SP.CategoricalVar)(valid_sets=sets[0], name=name)
        else:
            sets = [s(2) for _ in range(n)]; v = (SP.StringVar if kind == "str" else SP.CategoricalVar)(valid_sets=sets, name=name)
        same = lambda e, S: any(type(e) == type(q) and e == q or isinstance(e, str) and isinstance(q, str) and e == q for q in S)
        legal = lambda x: len(x) == len(sets) and all(same(e, S) for e, S in zip(x, sets))
        vals = [[r.choice(S) for S in sets] for _ in range(5)]
        allv = [[q] for q in dict.fromkeys(sets[0])] if len(sets) == 1 else None
        return v, dict(kind=kind, sets=sets), legal, vals, allv
    if kind == "seq":
        sets = r.sample([(1, 2), (), (3,), ("a", "b", "c"), (2, 1), (0,), (1, 2, 3)], r.randint(1, 6))
        rt = r.choice([tuple, list])
        v = SP.SequenceVar(valid_sets=[list(q) if r.random() < 0.5 else q for q in sets], return_type=rt, name=name)
        legal = lambda x: (len(x) == 1 and isinstance(x[0], rt) and tuple(x[0]) in sets)
        return v, dict(kind=kind, sets=sets), legal, [q for q in sets], [q for q in sets]
    if kind == "perm":
        vs = r.sample([1, 2, 3, 7, 10, -2], r.randint(2, 6)) if r.random() < 0.6 else r.sample(["a", "b", "c", "dd", "e"], r.randint(2, 5))
        v = SP.PermutationVar(valid_set=r.choice([tuple, list])(vs), name=name)
        legal = lambda x: len(x) == len(vs) and sorted(map(str, x)) == sorted(map(str, vs))
        vals = [r.sample(vs, len(vs)) for _ in range(5)]
        return v, dict(kind=kind, set=vs), legal, vals, [list(p) for p in itertools.permutations(vs)] if len(vs) <= 4 else None
    if kind in ("bin", "tbin"):
        if kind == "bin": v = SP.BinaryVar(n_vars=n, name=name); az = True; tf = None
        else:
            tf = r.choice(SP.TransferBinaryVar.SUPPORTED_TF_FUNCS); az = r.random() < 0.6
            v = SP.TransferBinaryVar(n_vars=n, name=name, tf_func=tf, lb=r.choice([-8., -2., -1, -20.]), ub=r.choice([8., 2., 5, 1., 30.]), all_zeros=az)
        legal = lambda x: len(x) == n and all(isinstance(e, (int, np.integer)) and e in (0, 1) for e in x) and (az or sum(x) > 0)
        allv = [list(p) for p in itertools.product((0, 1), repeat=n)]
        if not az: allv = [p for p in allv if sum(p)]
        return v, dict(kind=kind, n=n, all_zeros=az, tf=tf), legal, allv, allv
    if kind in ("bool", "tbool"):
        tf = None
        if kind == "bool": v = SP.BoolVar(n_vars=n, name=name)
        else:
            tf = r.choice(SP.TransferBoolVar.SUPPORTED_TF_FUNCS)
            v = SP.TransferBoolVar(n_vars=n, name=name, tf_func=tf, lb=r.choice([-8., -2., -1, -20.]), ub=r.choice([8., 2., 5, 1., 30.]))
        legal = lambda x: len(x) == n and all(isinstance(e, (bool, np.bool_)) for e in x)
        allv = [list(p) for p in itertools.product((False, True), repeat=n)]
        return v, dict(kind=kind, n=n, tf=tf), legal, allv, allv
    raise KeyError(kind)


def rand_vec(r, v):
    out = []
    for l, u in zip(v.lb, v.ub):
        l, u = float(l), float(u)
        out.append(r.choice([l, u, l - 1e-9, u + 1e-9, l - 3.7, u + 5.2, r.uniform(l, u), r.uniform(l, u), math.floor(r.uniform(l, u)), math.floor(r.uniform(l, u)) + 0.5,
                             -1e12, 1e12, 0.0, -0.0, 1.0, 0.5, 1.5, float("inf"), float("-inf"), np.nextafter(u, l), np.nextafter(l, u), round(r.uniform(l, u))]))
    return np.array(out, dtype=float)


def eqv(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all((x == y) if not (isinstance(x, (tuple, list)) or isinstance(y, (tuple, list))) else tuple(x) == tuple(y) for x, y in zip(a, b))


def run_C09(rep):
    r = rep.r
    kinds = ["float", "int", "str", "cat", "seq", "perm", "bin", "tbin", "bool", "tbool"]
    for it in range(rep.scale(1200, 20000)):
        kind = kinds[it % len(kinds)]
        v, d, legal, vals, allv = rand_var(r, kind)
        v.seed = r.randrange(10 ** 6)
        rand = kind in ("tbin", "tbool")
        lb, ub = np.asarray(v.lb, float), np.asarray(v.ub, float)
        for _ in range(6):
            x = rand_vec(r, v)
            if kind == "perm" and r.random() < 0.5: x = np.round(x, 0)
            arg = r.choice([x.copy(), list(x), tuple(x)]) if kind not in ("tbin", "tbool") else x.copy()
            c = dict(d, x=x.tolist())
            rep.case(c)
            st, y = raises(v.correct, arg, exc=())
            if st != "ok": rep.fail(f"correct raises {kind}", f"{kind} variable: correct raised {type(y).__name__}: {y}", c); continue
            y0 = np.array(y, dtype=float).copy()
            rep.check(y0.shape == lb.shape and np.all(y0 >= lb) and np.all(y0 <= ub), f"correct in bounds {kind}", lambda: f"{kind} variable: correct gives {y0.tolist()}, outside [{lb.tolist()}, {ub.tolist()}]", c)
            if not rand:
                y2 = np.array(v.correct(np.array(y, copy=True)), dtype=float)
                rep.check(np.array_equal(y0, y2), f"correct idempotent {kind}", lambda: f"{kind} variable: correcting twice gives {y2.tolist()} after {y0.tolist()}", c)
                inb = np.all(x >= lb) and np.all(x <= ub)
                if inb and kind in ("float", "int", "bin", "bool"):
                    rep.check(np.array_equal(y0, x), f"correct keeps {kind}", lambda: f"{kind} variable: a vector inside the bounds was changed to {y0.tolist()}", c)
            st, z = raises(v.decode, np.array(x, copy=True), exc=())
            if st != "ok": rep.fail(f"decode raises {kind}", f"{kind} variable: decode raised {type(z).__name__}: {z}", c); continue
            rep.check(legal(list(z)), f"decode legal {kind}", lambda: f"{kind} variable: decode gives the illegal {z!r}", c)
            if not rand:
                z2 = v.decode(np.array(y, copy=True))
                rep.check(eqv(z, z2), f"decode of repaired {kind}", lambda: f"{kind} variable: decoding the repaired vector gives {z2!r}, decoding the vector itself {z!r}", c)
        for _ in range(4):
            st, g = raises(v.generate, exc=())
            if st != "ok": rep.fail(f"generate raises {kind}", f"{kind} variable: generate raised {type(g).__name__}: {g}", d); break
            gl = [g] if kind == "seq" else list(g)
            ok = legal(gl) if kind not in ("seq", "float") else (tuple(g) in d["sets"] if kind == "seq" else all(l <= e <= u for e, l, u in zip(g, lb, ub)) and len(gl) == len(lb))
            rep.check(ok, f"generate legal {kind}", lambda: f"{kind} variable: generated the illegal {g!r}", d)
            st, e = raises(v.encode, g, exc=())
            if st != "ok": rep.fail(f"encode raises {kind}", f"{kind} variable: encoding a generated value raised {type(e).__name__}: {e}", dict(d, value=g)); continue
            e = np.asarray(e, float)
            if rand: continue
            rep.check(np.all(e >= lb) and np.all(e <= ub) and e.shape == lb.shape, f"encode in bounds {kind}", lambda: f"{kind} variable: encoding {g!r} gives {e.tolist()}, outside the bounds", d)
        if not rand:
            for w in vals:
                st, e = raises(v.encode, w, exc=())
                if st != "ok": rep.fail(f"encode raises {kind}", f"{kind} variable: encoding the legal {w!r} raised {type(e).__name__}: {e}", dict(d, value=w)); continue
                back = v.decode(e)
                bl = [back[0]] if kind == "seq" else list(back)
                ok = eqv(bl, [w] if kind == "seq" else w) and legal(bl)
                rep.check(ok, f"round trip {kind}", lambda: f"{kind} variable: decode(encode({w!r})) = {back!r}", d)
        if allv is not None and len(allv) <= 24 and it < rep.scale(400, 2000):
            seen = set()
            for _ in range(len(allv) * 40):
                g = v.generate(); seen.add(repr(tuple((type(q).__name__, str(q)) for q in g)))
                if len(seen) >= len(allv): break
            rep.check(len(seen) == len(allv), f"generate reaches {kind}", lambda: f"{kind} variable: only {len(seen)} of {len(allv)} legal values are ever generated", d)
            if rand:
                seen = set()
                for _ in range(len(allv) * 60):
                    z = v.decode(np.array([r.uniform(-0.8, 0.8) for l, u in zip(lb, ub)])); seen.add(repr(tuple(map(int, z))))
                    if len(seen) >= len(allv): break
                rep.check(len(seen) == len(allv), f"decode reaches {kind}", lambda: f"{kind} variable: only {len(seen)} of {len(allv)} legal values are ever decoded", d)
    # malformed declarations are rejected
    for f in (lambda: SP.FloatVar(lb=(1., 2.), ub=(3.,)), lambda: SP.IntegerVar(lb=[1], ub=[3, 4]), lambda: SP.BinaryVar(n_vars=0), lambda: SP.BoolVar(n_vars=-1),
              lambda: SP.TransferBinaryVar(tf_func="nope"), lambda: SP.TransferBoolVar(tf_func="nope"), lambda: SP.StringVar(valid_sets=(("a",), ("b", "c")))):
        rep.case(inspect.getsource(f)[:60])
        rep.check(raises(f)[0] == "raised", "malformed declaration", "a malformed variable declaration is accepted")


# ------------------------------------------------------------------------------------------------ C10
def inb(v, b):
    if v != v: return False
    lo, hi = b
    if type(b) is list: return (lo == -math.inf or lo <= v) and (hi == math.inf or v <= hi)
    return (lo == -math.inf or lo < v) and (hi == math.inf or v < hi)


def run_C10(rep):
    r = rep.r
    V = Validator(log_to=None, log_file=None)
    from fractions import Fraction
    from decimal import Decimal
    def num():
        return r.choice([r.randint(-6, 6), r.uniform(-6, 6), np.int64(r.randint(-6, 6)), np.float64(r.uniform(-6, 6)), np.float32(r.choice([-2.5, 0.25, 3.])), float(r.randint(-6, 6)),
                         True, False, 10 ** 9, -1e300, 0, 0.0, -0.0, np.int32(3), Fraction(1, 3), 0.1, np.uint8(5), 1e-300, math.inf, -math.inf])
    def junk():
        return r.choice([None, "3", "", [1], (1, 2), {}, object(), "True", np.array([1.0]), "abc", [1, 2], b"1", 2j, np.complex128(1)])
    def bound():
        a, b = sorted([r.choice([r.randint(-6, 6), r.uniform(-6, 6), 0, 1]) for _ in range(2)])
        if r.random() < 0.2: a = -math.inf
        if r.random() < 0.2: b = math.inf
        return r.choice([list, tuple])([a, b])
    def at(b):      # a value at or next to a bound
        e = r.choice([x for x in b])
        if math.isinf(e): return num()
        return r.choice([e, e, int(e), float(e), e + 1, e - 1, float(np.nextafter(float(e), math.inf)), float(np.nextafter(float(e), -math.inf)), np.float64(e)])
    same = lambda a, b: type(a) is type(b) and (a == b)
    for _ in range(rep.scale(6000, 80000)):
        fn = r.choice(["check_int", "check_float", "check_str", "check_bool", "check_tuple_int", "check_tuple_float", "check_list_tuple", "check_is_instance", "check_is_int_and_float"])
        b = None
        if fn in ("check_int", "check_float"):
            b = r.choice([None, bound(), bound(), bound()])
            v = r.choice([num, num, junk])() if b is None or r.random() < 0.5 else at(b)
            if r.random() < 0.05 and b is not None: v = float("nan")
            isnum = not isinstance(v, (str, bytes, list, tuple, dict, np.ndarray, complex)) and v is not None and type(v) is not object
            ok = isnum and (b is None or inb(v, b)) and not (fn == "check_int" and abs(v) == math.inf)
            conv = int if fn == "check_int" else float
            args = ("p", v, b); want = conv(v) if ok else None
            cmpv = same
        elif fn == "check_str":
            b = r.choice([None, ["a", "b", "abc"], ("x", "y"), []]); v = r.choice(["a", "b", "x", "A", "", "ab", "abc", 3, None, ["a"], b"a", np.str_("a"), True])
            ok = type(v) is str and (b is None or v in b); args = ("p", v, b); want = v; cmpv = same
        elif fn == "check_bool":
            b = r.choice([(True, False), (True, False), (True,), [False]]); v = r.choice([True, False, 1, 0, "True", "False", None, np.bool_(True), "", [True], 1.0])
            ok = type(v) is bool and v in b; args = ("p", v, b); want = v; cmpv = same
        elif fn in ("check_tuple_int", "check_tuple_float"):
            k = r.choice([0, 1, 2, 2, 3, 3, 4])
            if fn == "check_tuple_int": items = [r.choice([r.randint(-6, 6), np.int64(r.randint(-6, 6))]) if r.random() < 0.85 else r.choice([1.5, "2", None, 2.0]) for _ in range(k)]
            else: items = [r.choice([r.uniform(-6, 6), r.randint(-6, 6), np.float64(1.5)]) if r.random() < 0.85 else r.choice(["2", None, float("nan")]) for _ in range(k)]
            cont = r.choice([tuple, list, np.array])
            if cont is np.array and any(isinstance(i, str) or i is None for i in items): cont = list
            v = cont(items) if r.random() < 0.9 else r.choice([3, None, "ab", {1, 2}])
            b = r.choice([None, "b", "b", "b"])
            if b == "b": b = [bound() for _ in range(k if r.random() < 0.85 else r.choice([0, 1, k + 1, max(k - 1, 0)]))]
            ok = isinstance(v, (tuple, list, np.ndarray)) and len(v) > 1
            if ok:
                typ = (int, np.integer) if fn == "check_tuple_int" else (int, float, np.integer, np.floating)
                ok = all(isinstance(i, typ) for i in v)
                if ok and b is not None: ok = len(b) == len(v) and all(inb(i, q) for i, q in zip(v, b))
            args = ("p", v, b); want = v
            cmpv = lambda a, w: type(a) is type(w) and len(a) == len(w) and all(x == y or (x != x and y != y) for x, y in zip(a, w))
        elif fn == "check_list_tuple":
            v = r.choice([[1], (1, 2), [], (), "ab", None, {1: 2}, np.array([1]), [None], (3,), 5, [[1], 2]])
            ok = type(v) in (tuple, list) and len(v) >= 1; args = ("p", v, "int"); want = list(v) if ok else None; cmpv = same
        elif fn == "check_is_instance":
            v = r.choice([1, "a", None, [1], 2.5, {}]); t = r.choice([int, str, (int, float), list, dict])
            ok = isinstance(v, t); args = ("p", v, t); want = v; cmpv = lambda a, w: a is w
        else:
            bi, bf = r.choice([None, bound(), bound()]), r.choice([None, bound(), bound()])
            v = r.choice([num, num, junk])()
            if r.random() < 0.4 and bi is not None: v = at(bi)
            elif r.random() < 0.4 and bf is not None: v = at(bf)
            ok = (type(v) is int and (bi is None or inb(v, bi))) or (type(v) is float and (bf is None or inb(v, bf)))
            args = ("p", v, bi, bf); want = v; cmpv = same
        st, got = raises(getattr(V, fn), *args)
        c = dict(fn=fn, args=args[1:])
        rep.case((fn, repr(args)), ok)
        if st == "other": rep.fail(f"{fn} other", f"{fn}{args[1:]!r} raised {type(got).__name__} instead of {'returning' if ok else 'ValueError'}", c)
        elif ok: rep.check(st == "ok" and cmpv(got, want), f"{fn} accepts", lambda: f"{fn}{args[1:]!r}: {'rejected' if st == 'raised' else f'returned {got!r}'}, expected {want!r}", c)
        else: rep.check(st == "raised", f"{fn} rejects", lambda: f"{fn}{args[1:]!r} was accepted (returned {got!r}), expected ValueError", c)
    # the boundary itself, exhaustively on a small grid
    for a, b in itertools.product(range(-2, 3), repeat=2):
        if a > b: continue
        for v in [x / 2 for x in range(-6, 7)]:
            for B in ([a, b], (a, b), [-math.inf, b], (-math.inf, b), [a, math.inf], (a, math.inf)):
                for fn in ("check_int", "check_float"):
                    st, got = raises(getattr(V, fn), "p", v, B); rep.case((fn, v, B), inb(v, B))
                    rep.check((st == "ok") == inb(v, B) and st != "other", f"{fn} grid", f"{fn}({v}, {B}) -> {st}", (fn, v, B))


# ------------------------------------------------------------------------------------------------ C11
C11_EXEMPT = {}


def eqp(a, b):
    try:
        if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
            return len(a) == len(b) and all(eqp(x, y) for x, y in zip(a, b))
        return bool(a == b)
    except Exception: return False


def run_C11(rep):
    import optruns
    r = rep.r
    classes = optruns.get_classes()
    for name, cls in sorted(classes.items()):
        sig = [p for p in inspect.signature(cls.__init__).parameters.values() if p.name != "self" and p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL)]
        names = [p.name for p in sig]
        base = {}
        if not all(p.default is not p.empty for p in sig): rep.notes.append(f"{name}: parameter without default"); continue
        st, o = raises(cls, exc=ValueError)
        rep.case((name, "defaults"))
        if not rep.check(st == "ok", f"{name} defaults", f"{name}() with its default hyper-parameters raises {type(o).__name__}: {o}"): continue
        variants = [{}]
        for p in sig:
            for _ in range(rep.scale(3, 12)):
                d = p.default
                if type(d) is bool: v = not d
                elif type(d) is int: v = r.choice([d, d + 1, d + 2, d - 1, d * 2, max(d // 2, 1), r.randint(0, 12), r.randint(1, 300), -1, 0, 10 ** 7])
                elif type(d) is float: v = r.choice([d, d * 0.5, d * 1.25, round(r.random(), 3), r.uniform(0, 12), -0.5, 0.0, 1.0, 1e5, d + 0.1])
                elif type(d) in (tuple, list): v = type(d)(r.choice([x, x * 1.1 if isinstance(x, float) else x + 1]) if isinstance(x, (int, float)) and not isinstance(x, bool) else x for x in d)
                else: v = d
                kw = {p.name: v}
                if r.random() < 0.3: kw["epoch"] = r.randint(1, 500)
                if r.random() < 0.3 and "pop_size" in names: kw["pop_size"] = r.randint(12, 200)
                variants.append(kw)
        for kw in variants:
            st, o = raises(cls, **kw)
            c = dict(cls=name, kwargs=kw)
            rep.case(c, bool(kw) and st == "ok")
            if st == "raised": continue
            if st == "other":
                rep.fail(f"{name} constructor error", f"{name}(**{kw}) raised {type(o).__name__}: {o} (not ValueError)", c); continue
            par = o.get_parameters()
            rep.check(set(par) == set(names), f"{name} reported names", lambda: f"{name} reports hyper-parameters {sorted(par)}, its constructor takes {sorted(names)}", c)
            for p in sig:
                given = kw.get(p.name, p.default)
                if not hasattr(o, p.name): rep.fail(f"{name}.{p.name} missing", f"{name} has no attribute {p.name}", c); continue
                got = getattr(o, p.name)
                rep.check(eqp(got, given), f"{name}.{p.name}", lambda: f"{name}(**{kw}): attribute {p.name} is {got!r}, given {given!r}", c)
                if p.name in par: rep.check(eqp(par[p.name], got), f"{name}.{p.name} reported", lambda: f"{name}(**{kw}): reports {p.name}={par[p.name]!r}, attribute is {got!r}", c)
        # set_parameters
        o = cls(); par = dict(o.get_parameters())
        nm = r.choice(names); new = {nm: ("sentinel", nm)}
        if len(names) > 1: new[r.choice(names)] = 12345
        o.set_parameters(dict(new)); rep.case((name, "set", tuple(new)))
        for k, v in new.items():
            rep.check(getattr(o, k) == v and o.get_parameters().get(k) == v, f"{name} set_parameters", f"{name}.set_parameters({new}) does not update {k}")
        for k in par:
            if k not in new: rep.check(o.get_parameters().get(k) is par[k] or eqp(o.get_parameters().get(k), par[k]), f"{name} set_parameters others", f"{name}.set_parameters({new}) changed {k}")
        o = cls(); before = dict(o.__dict__); bp = dict(o.get_parameters())
        mixed = {nm: 777, "no_such_parameter": 1}
        items = list(mixed.items()); r.shuffle(items)
        st, e = raises(o.set_parameters, dict(items)); rep.case((name, "set unknown"))
        rep.check(st == "raised", f"{name} unknown accepted", f"{name}.set_parameters({mixed}) accepts an unknown name")
        rep.check(dict(o.get_parameters()) == bp or all(eqp(o.get_parameters()[k], bp[k]) for k in bp), f"{name} unknown changes", f"{name}.set_parameters({mixed}) raised but changed the parameters")
        rep.check(all(o.__dict__.get(k) is before[k] for k in names if k in before) and "no_such_parameter" not in o.__dict__, f"{name} unknown changes attr", f"{name}.set_parameters({mixed}) raised but changed attributes")


# ------------------------------------------------------------------------------------------------ C12
def rand_pop(r, n=None):
    n = n or r.choice([1, 2, 2, 3, 4, 5, 8, 13])
    pal = r.choice([[0., 1., 2.], [-1., 0., 1., 2., 3.], [5.], None, [1e300, -1e300, 0., float("inf")], [-0.5, -0.25, -3.]])
    return [mk(r.choice(pal) if pal else r.uniform(-9, 9), pos=[r.uniform(-3, 3), r.uniform(-3, 3)]) for _ in range(n)]


def snap(pop): return [(id(a), a.target.fitness, tuple(a.solution), a.id, id(a.solution), id(a.target)) for a in pop]


def run_C12(rep):
    r = rep.r
    O = Optimizer
    for _ in range(rep.scale(2500, 30000)):
        pop = rand_pop(r); mm = r.choice(["min", "max"]); n = len(pop)
        s0 = snap(pop); lst = list(pop)
        fits = [a.target.fitness for a in pop]
        order = sorted(fits, reverse=(mm == "max"))
        c = dict(fitness=fits, minmax=mm)
        rep.case(c, n > 1 and len(set(fits)) > 1)
        def intact(fn):
            rep.check([id(a) for a in pop] == [id(a) for a in lst] and snap(pop) == s0, f"{fn} modifies", f"{fn} modifies the given agents", c)
        def indep(fn, a, src):
            """a is an independent copy of an agent of src"""
            rep.check(all(a is not b and a.solution is not b.solution and a.target is not b.target and not np.shares_memory(a.solution, b.solution) for b in src), f"{fn} copies", f"{fn} returns a live agent instead of a copy", c)
        sp, idx = O.get_sorted_population(pop, mm)
        rep.check([a.target.fitness for a in sp] == order, "sorted order", lambda: f"sorted fitness {[a.target.fitness for a in sp]} instead of {order}", c)
        rep.check(sorted(id(a) for a in sp) == sorted(id(a) for a in pop), "sorted permutation", "sorting is not a permutation of the agents", c)
        rep.check(sorted(idx) == list(range(n)) and [pop[i] is a for i, a in zip(idx, sp)] == [True] * n, "sorted index", "the sorted indices do not give the sorted population", c)
        intact("get_sorted_population")
        b, bi = O.get_best_agent(pop, mm)
        rep.check(b.target.fitness == order[0] and fits[bi] == order[0], "best", f"best agent has fitness {b.target.fitness}, {order[0]} is best", c); indep("get_best_agent", b, pop)
        w, wi = O.get_worst_agent(pop, mm)
        rep.check(w.target.fitness == order[-1] and fits[wi] == order[-1], "worst", f"worst agent has fitness {w.target.fitness}, {order[-1]} is worst", c); indep("get_worst_agent", w, pop)
        intact("get_best/worst_agent")
        nb, nw = r.choice([None, 0, 1, 2, 3, n, n + 2]), r.choice([None, 0, 1, 2, 3, n, n + 2]); ri = r.random() < 0.4
        s, bb, ww = O.get_special_agents(pop, n_best=nb, n_worst=nw, minmax=mm, return_index=ri)
        intact("get_special_agents")
        rep.check([a.target.fitness for a in s] == order and sorted(id(a) for a in s) == sorted(id(a) for a in pop), "special sorted", "get_special_agents: first result is not the sorted population", c)
        val = (lambda q: fits[q]) if ri else (lambda q: q.target.fitness)
        rep.check((bb is None) == (nb is None) and (ww is None) == (nw is None), "special none", "get_special_agents: None handling", c)
        if nb is not None:
            rep.check([val(q) for q in bb] == order[:nb], "special best", lambda: f"the {nb} best have {[val(q) for q in bb]}, expected {order[:nb]}", c)
            if not ri: [indep("get_special_agents(best)", a, pop) for a in bb]
            else: rep.check(len(set(bb)) == len(bb), "special best idx", "the same index twice", c)
        if nw is not None:
            rep.check([val(q) for q in ww] == order[::-1][:nw], "special worst", lambda: f"the {nw} worst have {[val(q) for q in ww]}, expected {order[::-1][:nw]}", c)
            if not ri: [indep("get_special_agents(worst)", a, pop) for a in ww]
            else: rep.check(len(set(ww)) == len(ww), "special worst idx", "the same index twice", c)
        tot, fb, fw = O.get_special_fitness(pop, mm)
        rep.check(fb == order[0] and fw == order[-1], "special fitness", f"get_special_fitness gives best {fb} / worst {fw}, expected {order[0]} / {order[-1]}", c)
        if all(abs(f) < 1e6 for f in fits): rep.check(abs(tot - math.fsum(fits)) <= 1e-9 * max(1, sum(map(abs, fits))), "special total", f"total fitness {tot} instead of {sum(fits)}", c)
        intact("get_special_fitness")
        k = r.choice([1, 2, n, n + 3, max(n - 1, 1), 0])
        tr = O.get_sorted_and_trimmed_population(pop, k, mm)
        rep.check([a.target.fitness for a in tr] == order[:k] and all(any(a is q for q in pop) for a in tr) and len({id(a) for a in tr}) == len(tr), "trimmed", lambda: f"trimming to {k} gives {[a.target.fitness for a in tr]}, expected {order[:k]}", c)
        intact("get_sorted_and_trimmed_population")
        # two agents
        x, y = r.choice(pop), r.choice(pop)
        rev = r.random() < 0.5
        g = O.get_better_agent(x, y, mm, reverse=rev)
        want = (min if (mm == "min") != rev else max)(x.target.fitness, y.target.fitness)
        rep.check(g.target.fitness == want, "better agent", f"better of {x.target.fitness} and {y.target.fitness} ({mm}, reverse={rev}) is {g.target.fitness}", c); indep("get_better_agent", g, [x, y])
        intact("get_better_agent")
        fx, fy = x.target.fitness, y.target.fitness
        for nm, got in (("compare_target", O.compare_target(x.target, y.target, mm)), ("compare_fitness", O.compare_fitness(fx, fy, mm))):
            if fx != fy: rep.check(bool(got) == (fx < fy if mm == "min" else fx > fy), nm, f"{nm}({fx}, {fy}, {mm}) = {got}", c)
            rep.check(isinstance(got, (bool, np.bool_)), nm + " type", f"{nm} returned {got!r}", c)
        # greedy
        new = rand_pop(r, n); s1 = snap(new)
        gr = O.greedy_selection_population(pop, new, mm)
        for i in range(n):
            better = new[i].target.fitness < pop[i].target.fitness if mm == "min" else new[i].target.fitness > pop[i].target.fitness
            rep.check(gr[i] is (new[i] if better else pop[i]), "greedy", f"greedy selection at {i}: old {pop[i].target.fitness}, new {new[i].target.fitness} ({mm}) kept {gr[i].target.fitness}", c)
        rep.check(len(gr) == n, "greedy length", "greedy selection changes the length", c)
        intact("greedy_selection_population"); rep.check(snap(new) == s1, "greedy modifies new", "greedy selection modifies the new agents", c)
        rep.check(raises(O.greedy_selection_population, pop, new + [mk(1.)], mm)[0] == "raised", "greedy lengths", "populations of different lengths are accepted", c)
        du = O.duplicate_pop(pop)
        rep.check([a.target.fitness for a in du] == fits and [tuple(a.solution) for a in du] == [tuple(a.solution) for a in pop], "duplicate", "duplicate_pop differs", c)
        for a in du: indep("duplicate_pop", a, pop)
        intact("duplicate_pop")
        o = Plain()
        ng = r.randint(1, 3); m = r.randint(1, 4)
        grp = o.generate_group_population(pop, ng, m)
        want = [fits[i * m:(i + 1) * m] for i in range(ng)]
        rep.check([[a.target.fitness for a in q] for q in grp] == want, "groups", "generate_group_population splits wrongly", c)
        for q in grp: [indep("generate_group_population", a, pop) for a in q]
        intact("generate_group_population")


# ------------------------------------------------------------------------------------------------ C13
def run_C13(rep):
    import optruns
    r = rep.r
    O = Optimizer
    def gen():
        s = r.randrange(10 ** 9)
        return optruns.AdvGenerator(s, prob=0.3) if r.random() < 0.4 else np.random.default_rng(s)
    for _ in range(rep.scale(3000, 40000)):
        n = r.choice([2, 3, 4, 5, 7, 12, 40]); ex = r.randrange(n); k = r.randint(1, n - 1); rp = r.random() < 0.2
        if rp: k = r.randint(1, n + 3)
        out = O.sample_indexes_exclude_one(gen(), n, ex, k, replace=rp)
        L = [out] if k == 1 else list(out)
        c = dict(pop_size=n, exclude=ex, n_samples=k, replace=rp, got=L); rep.case((n, ex, k, rp), k > 1)
        rep.check(np.ndim(out) == (0 if k == 1 else 1) and len(L) == k, "exclude_one size", f"asked for {k} indices, got {out!r}", c)
        rep.check(all(0 <= q < n and q != ex and int(q) == q for q in L), "exclude_one range", f"indices {L} for population {n} excluding {ex}", c)
        if not rp: rep.check(len(set(map(int, L))) == len(L), "exclude_one distinct", f"indices {L} repeat", c)
        # list exclusion
        n = r.choice([2, 3, 4, 5, 7, 12, 40]); m = r.randint(0, n - 1); exl = r.sample(range(n), m)
        if exl and r.random() < 0.2: exl = exl + [exl[0]]
        free = n - len(set(exl)); k = r.randint(1, free); rp = r.random() < 0.2
        if not exl: arg = []
        arg = exl if r.random() < 0.6 else np.array(exl, dtype=int)
        if len(exl) == 0: arg = np.array([], dtype=int) if r.random() < 0.5 else []
        out = O.sample_indexes_exclude_list(gen(), n, arg, k, replace=rp)
        L = [out] if k == 1 else list(out)
        c = dict(pop_size=n, exclude=exl, n_samples=k, replace=rp, got=L); rep.case((n, tuple(exl), k, rp), k > 1)
        rep.check(np.ndim(out) == (0 if k == 1 else 1) and len(L) == k, "exclude_list size", f"asked for {k} indices, got {out!r}", c)
        rep.check(all(0 <= q < n and int(q) not in exl for q in L), "exclude_list range", f"indices {L} for population {n} excluding {exl}", c)
        if not rp: rep.check(len(set(map(int, L))) == len(L), "exclude_list distinct", f"indices {L} repeat", c)
    # every allowed index can occur
    for n in range(2, rep.scale(7, 10)):
        for ex in range(n):
            g = np.random.default_rng(r.randrange(10 ** 9)); seen = set()
            for _ in range(60 * n): seen.add(int(O.sample_indexes_exclude_one(g, n, ex, 1)))
            rep.case(("reach one", n, ex))
            rep.check(seen == set(range(n)) - {ex}, "exclude_one reach", f"population {n}, excluding {ex}: only {sorted(seen)} ever occur", (n, ex))
            exl = sorted({ex, r.randrange(n)})
            if len(exl) < n:
                seen = set()
                for _ in range(60 * n): seen.add(int(O.sample_indexes_exclude_list(g, n, exl, 1)))
                rep.check(seen == set(range(n)) - set(exl), "exclude_list reach", f"population {n}, excluding {exl}: only {sorted(seen)} ever occur", (n, exl))
    # tournament
    for _ in range(rep.scale(2500, 30000)):
        pop = rand_pop(r, r.choice([2, 3, 5, 8, 10, 15, 20])); n = len(pop); mm = r.choice(["min", "max"])
        fits = [a.target.fitness for a in pop]
        kw = r.choice([2, 3, n, max(n - 1, 2)]) if r.random() < 0.6 else r.choice([0.2, 0.5, 0.9])
        kw = min(kw, n); drawn = int(kw * n) if 0 < kw < 1 else kw
        if drawn < 1: continue
        out = r.randint(1, drawn); rev = r.random() < 0.4
        o = Plain(); o.problem = type("P", (), {"minmax": mm})(); o.generator = gen()
        rec = {}
        real = o.generator
        class G:
            def __getattr__(self, k): return getattr(real, k)
            def choice(self, a, size=None, replace=True, p=None, **kk):
                x = real.choice(a, size, replace=replace, p=p, **kk); rec.setdefault("drawn", np.atleast_1d(x).tolist()); return x
        o.generator = G()
        L = o.get_index_kway_tournament_selection(pop, k_way=kw, output=out, reverse=rev)
        c = dict(fitness=fits, minmax=mm, k_way=kw, output=out, reverse=rev, got=[int(q) for q in L], drawn=rec.get("drawn")); rep.case(c, drawn > 1)
        rep.check(len(L) == out and len(set(map(int, L))) == out and all(0 <= q < n for q in L), "tournament indices", f"tournament returned {L}", c)
        if rec.get("drawn") is not None and len(rec["drawn"]) == drawn and set(map(int, L)) <= set(map(int, rec["drawn"])):
            df = sorted((fits[int(q)] for q in rec["drawn"]), reverse=(mm == "max"))
            want = df[-out:] if rev else df[:out]
            rep.check(sorted(fits[int(q)] for q in L) == sorted(want), "tournament best", f"selected fitness {[fits[int(q)] for q in L]}, expected {want} of the candidates {df}", c)
        elif rec.get("drawn") is not None and len(rec["drawn"]) == drawn: rep.fail("tournament candidates", "the selected indices are not among the drawn candidates", c)
        if drawn == n:
            df = sorted(fits, reverse=(mm == "max")); want = df[-out:] if rev else df[:out]
            rep.check(sorted(fits[int(q)] for q in L) == sorted(want), "tournament all", f"all drawn: selected {[fits[int(q)] for q in L]}, expected {want}", c)
    # roulette
    for it in range(rep.scale(2500, 30000)):
        n = r.choice([1, 2, 3, 4, 6, 10]); mm = r.choice(["min", "max"])
        pal = r.choice([[0.], [1., 2.], [-1., 1., 0.], [-3., -2., -1.], None, [1e-12, 2e-12], [1e150, 2e150], [7.]])
        fit = [r.choice(pal) if pal else r.uniform(-20, 20) for _ in range(n)]
        o = Plain(); o.problem = type("P", (), {"minmax": mm})(); o.generator = gen()
        st, q = raises(o.get_index_roulette_wheel_selection, r.choice([list, tuple, np.array])(fit), exc=())
        c = dict(fitness=fit, minmax=mm); rep.case(c, len(set(fit)) > 1)
        if st != "ok": rep.fail("roulette raises", f"roulette selection raised {type(q).__name__}: {q}", c); continue
        rep.check(isinstance(q, (int, np.integer)) and 0 <= q < n, "roulette index", f"roulette selection returned {q!r}", c)
        if mm == "min" and len(set(fit)) > 1: rep.check(fit[int(q)] != max(fit), "roulette worst", f"roulette selection picked the worst candidate {q}", c)
        if it < rep.scale(60, 400) and len(set(fit)) > 1 and n > 1:
            cnt = np.zeros(n); o.generator = np.random.default_rng(it)
            for _ in range(800): cnt[o.get_index_roulette_wheel_selection(fit)] += 1
            bi = int(np.argmin(fit) if mm == "min" else np.argmax(fit)); wi = int(np.argmax(fit) if mm == "min" else np.argmin(fit))
            rep.check(cnt[bi] > 0 and cnt[bi] >= cnt[wi] - 60, "roulette direction", f"the best candidate was picked {int(cnt[bi])} times, the worst {int(cnt[wi])} times of 800", c)


# ------------------------------------------------------------------------------------------------ C14
def run_C14(rep):
    r = rep.r
    for _ in range(rep.scale(3000, 30000)):
        kw = {}
        if r.random() < 0.6: kw["velocity"] = np.array([r.uniform(-1, 1) for _ in range(3)])
        if r.random() < 0.4: kw["local_solution"] = np.array([1., 2., 3.])
        if r.random() < 0.3: kw["memory"] = [1, 2, 3]
        if r.random() < 0.3: kw["d"] = {"a": 1}
        if r.random() < 0.3: kw["level"] = r.randint(0, 5)
        a = Agent(np.array([r.uniform(-3, 3) for _ in range(3)]), Target([r.uniform(-3, 3), 2.0], r.choice([None, [0.3, 0.7]])), **kw)
        # a history of updates before the copy
        for _k in range(r.randint(0, 3)):
            q = r.random()
            if q < 0.3: a.update(solution=np.array([9., 8., 7.]))
            elif q < 0.5: a.update(target=Target([4., 1.]))
            elif q < 0.7: a.update(extra=np.arange(3.), level=7)
            elif q < 0.85: a.update_agent(np.array([1., 1., 2.]), Target([1., 2.]))
            elif "velocity" in kw: a.velocity = a.velocity * 2
        at = {k: v for k, v in vars(a).items() if k not in ("id", "kwargs")}
        c = dict(attrs=sorted(at)); rep.case((sorted(at), tuple(a.solution)), True)
        pop = [a, mk(1.)]
        b = a.copy() if r.random() < 0.6 else Optimizer.duplicate_pop(pop)[0]
        rep.check(b is not a and b.id != a.id, "identity", "the copy has the identity of the original", c)
        for k, v in at.items():
            if k == "target":
                rep.check(b.target is not a.target and np.array_equal(b.target.objectives, v.objectives) and b.target.fitness == v.fitness and np.array_equal(b.target.weights, v.weights), "copy target", "the copy's target differs or is shared", c)
                continue
            w = getattr(b, k, None)
            rep.check(np.array_equal(w, v) if isinstance(v, np.ndarray) else (w == v and type(w) is type(v)), f"copy attr", f"attribute {k} of the copy is {w!r}, original {v!r}", c)
        frozen = lambda x: {k: (np.array(v, copy=True) if isinstance(v, np.ndarray) else (list(v) if isinstance(v, list) else (dict(v) if isinstance(v, dict) else (v.fitness, v.objectives.copy()) if isinstance(v, Target) else v))) for k, v in vars(x).items() if k not in ("kwargs",)}
        def equal(p, q): return p.keys() == q.keys() and all((np.array_equal(p[k], q[k]) if isinstance(p[k], np.ndarray) else (p[k][0] == q[k][0] and np.array_equal(p[k][1], q[k][1])) if k == "target" else p[k] == q[k]) for k in p)
        for src, dst, lab in ((a, b, "original"), (b, a, "copy")):
            keep = frozen(dst)
            src.solution[0] += 1.5
            src.solution += 0.25
            if src.target.objectives.dtype.kind == "f": src.target.objectives[0] = 99.
            for k, v in vars(src).items():
                if isinstance(v, np.ndarray) and k != "solution": v += 1
                if isinstance(v, list): v.append(5)
                if isinstance(v, dict) and k != "kwargs": v["zz"] = 1
            src.update(target=Target([0., 0.]), level=99)
            rep.check(equal(frozen(dst), keep), "independence", lambda: f"changing the {lab} shows in the other: {[k for k in keep if not np.array_equal(np.asarray(keep[k], dtype=object) if not isinstance(keep[k], np.ndarray) else keep[k], frozen(dst)[k])]}" if False else f"changing the {lab} in place shows in the other", c)
    ids = [mk(1.).copy().id for _ in range(50)]
    rep.check(len(set(ids)) == 50, "fresh identities", "copies share identities")
    for _ in range(rep.scale(3000, 20000)):
        vals = [0., 1., -1., 2.5, -0.0, 1e-300, float("inf"), -float("inf"), r.uniform(-1, 1)]
        fx, fy = r.choice(vals), r.choice(vals); x, y = mk(fx), mk(fy); mm = r.choice(["min", "max"])
        c = dict(fx=fx, fy=fy, minmax=mm); rep.case(c, fx != fy)
        bet = fx < fy if mm == "min" else fx > fy
        wor = fx > fy if mm == "min" else fx < fy
        rep.check(x._compare_fitness(y, mm) == (-1 if bet else 1 if wor else 0), "compare", f"comparing {fx} with {fy} ({mm}) gives {x._compare_fitness(y, mm)}", c)
        rep.check(bool(x.is_better_than(y, mm)) == bet, "is_better_than", f"is_better_than({fx}, {fy}, {mm}) = {x.is_better_than(y, mm)}", c)
        rep.check(x.get_better_solution(y, mm) is (y if wor else x), "get_better_solution", f"better of {fx} and {fy} ({mm}) is the wrong one", c)
        rep.check(not (x.is_better_than(y, mm) and y.is_better_than(x, mm)), "antisymmetric", "both are better than the other", c)


# ------------------------------------------------------------------------------------------------ C15
def run_C15(rep):
    r = rep.r
    def num():
        return r.choice([r.uniform(-50, 50), r.randint(-9, 9), np.float64(r.uniform(-5, 5)), np.int64(r.randint(-5, 5)), 0, 1.5, -0.25, 1e10, True])
    for _ in range(rep.scale(6000, 60000)):
        kind = r.choice(["num", "list", "tuple", "arr", "arr2d", "bad", "npnum"])
        n = r.choice([1, 1, 2, 3, 4, 6])
        flat = [num() for _ in range(n)]
        if kind in ("num", "npnum"): flat = flat[:1]; obj = flat[0] if kind == "num" else np.float64(flat[0]); flat = [obj]
        elif kind == "list": obj = list(flat)
        elif kind == "tuple": obj = tuple(flat)
        elif kind == "arr": obj = np.array(flat)
        elif kind == "arr2d": flat = flat if len(flat) % 2 == 0 else flat + [2.]; obj = np.array(flat, dtype=float).reshape(2, -1)
        else: obj = r.choice(["abc", None, {"a": 1}, object(), {1, 2}, b"x"]); flat = None
        wk = r.choice(["none", "num", "list", "tuple", "arr", "wrong", "bad", "npnum"])
        m = len(flat) if flat is not None else n
        ws = [num() for _ in range(m)]
        if wk == "none": w = None; eff = [1.] * m
        elif wk == "num": w = num(); eff = [w] * m
        elif wk == "npnum": w = np.float64(0.75); eff = [w] * m
        elif wk in ("list", "tuple", "arr"): w = {"list": list, "tuple": tuple, "arr": np.array}[wk](ws); eff = ws
        elif wk == "wrong": w = [num() for _ in range(r.choice([k for k in (1, 2, 3, 5, 7) if k != m]))]; eff = [1.] * m
        else: w = r.choice(["ab", {"a": 1}, object()]); eff = None
        keep = None if flat is None else list(flat)
        st, t = raises(Target, obj, w)
        c = dict(objectives=obj, weights=w); rep.case((repr(obj), repr(w)), flat is not None and eff is not None and m > 1)
        if flat is None or eff is None:
            rep.check(st == "raised", "bad accepted", f"Target({obj!r}, {w!r}) -> {st} instead of ValueError", c); continue
        if st != "ok": rep.fail("good rejected", f"Target({obj!r}, {w!r}) raised {type(t).__name__}: {t}", c); continue
        want = math.fsum(float(a) * float(b) for a, b in zip(eff, flat)); tol = 1e-12 * max(1., math.fsum(abs(float(a) * float(b)) for a, b in zip(eff, flat)))
        rep.check(abs(float(t.fitness) - want) <= tol, "fitness", lambda: f"fitness of {obj!r} with weights {w!r} is {t.fitness!r}, expected {want!r}", c)
        rep.check(len(t.objectives) == len(keep) and all(float(a) == float(b) for a, b in zip(t.objectives, keep)), "objectives", lambda: f"objectives {t.objectives!r} differ from the given {obj!r}", c)
        q = t.copy()
        rep.check(q is not t and q.fitness == t.fitness and np.array_equal(q.objectives, t.objectives), "copy", "the copy of a target differs", c)
    # through a problem
    for _ in range(rep.scale(200, 2000)):
        n = r.choice([1, 2, 3]); ws = r.choice([None, [r.uniform(0, 2) for _ in range(n)]])
        vals = [r.uniform(-5, 5) for _ in range(n)]
        ret = r.choice([lambda: list(vals), lambda: tuple(vals), lambda: np.array(vals)]) if n > 1 else r.choice([lambda: vals[0], lambda: list(vals), lambda: np.float64(vals[0])])
        kw = {} if ws is None else {"obj_weights": ws}
        p = Problem(bounds=SP.FloatVar(lb=[0.], ub=[1.]), minmax="min", obj_func=lambda x: ret(), log_to=None, **kw)
        t = p.get_target(np.array([0.5])); want = sum((a * b for a, b in zip(ws or [1.] * n, vals)))
        rep.case(("problem", vals, ws))
        rep.check(abs(float(t.fitness) - want) <= 1e-9, "problem fitness", f"fitness {t.fitness} of objectives {vals} with weights {ws}, expected {want}", dict(vals=vals, ws=ws))


# ------------------------------------------------------------------------------------------------ C16
def run_C16(rep):
    r = rep.r
    def grid():
        k = r.choice([0, 1, 1, 2, 2, 3, 4]); names = r.sample(["zeta", "alpha", "mid", "b", "Epoch", "pop_size"], k)
        return {q: r.choice([list, tuple, np.array])([f"{q}{i}" if r.random() < 0.5 else i * 1.5 for i in range(r.choice([1, 1, 2, 3, 4, 5]))]) if r.random() < 0.8 else list(range(r.choice([1, 2, 3]))) for q in names}
    for _ in range(rep.scale(1500, 15000)):
        g = grid() if r.random() < 0.5 else [grid() for _ in range(r.choice([0, 1, 2, 3, 4]))]
        gs = [g] if isinstance(g, dict) else g
        g = g if isinstance(g, dict) or r.random() < 0.7 else tuple(g)
        want = []
        for d in gs:
            want += [dict(zip(d.keys(), v)) for v in itertools.product(*[list(x) for x in d.values()])]
        P = ParameterGrid(g)
        c = dict(grid=g); rep.case(repr(g), len(want) > 1)
        it = list(P)
        key = lambda d: sorted((k, repr(v)) for k, v in d.items())
        rep.check(len(P) == len(want), "length", f"len is {len(P)}, there are {len(want)} combinations", c)
        rep.check(sorted(map(key, it)) == sorted(map(key, want)), "iteration", "iteration does not yield each combination exactly once", c)
        rep.check([key(d) for d in P] == [key(d) for d in it], "re-iteration", "iterating twice gives different results", c)
        for i in range(len(want)):
            st, x = raises(P.__getitem__, i, exc=())
            rep.check(st == "ok" and i < len(it) and key(x) == key(it[i]), "index", f"item {i} is {x!r}, iteration gives {it[i] if i < len(it) else None!r}", dict(grid=g, index=i))
        for i in (len(want), len(want) + 1, len(want) + 17):
            st, x = raises(P.__getitem__, i, exc=IndexError)
            rep.check(st == "raised", "index past end", f"item {i} of {len(want)} gives {x!r} instead of IndexError", dict(grid=g, index=i))
        i = np.int64(0)
        if want: rep.check(key(P[i]) == key(it[0]), "index numpy", "numpy index differs", c)
    for bad in (5, None, [5], ["a"], {"a": 5}, {"a": "abc"}, {"a": []}, {"a": np.zeros((2, 2))}, [{"a": [1]}, 3], {"a": None}, {"a": {1, 2}}, {"a": np.array([])}, [{"a": [1]}, {"b": ()}], {"a": [1], "b": "x"}):
        st, e = raises(ParameterGrid, bad, exc=(ValueError, TypeError)); rep.case(repr(bad))
        rep.check(st == "raised", "malformed grid", f"malformed grid {bad!r} is accepted", bad)


# ------------------------------------------------------------------------------------------------ C17 / C18
class Stub(Optimizer):
    """An optimizer whose result is a table lookup; it records how it was called."""
    LOG = []
    TABLE = {}
    def __init__(self, epoch=10, pop_size=50, a=1, b=1.0, **kw):
        super().__init__(**kw)
        self.epoch, self.pop_size, self.a, self.b = epoch, pop_size, a, b
        self.set_parameters(["epoch", "pop_size", "a", "b"])
    def solve(self, problem=None, mode="single", n_workers=None, termination=None, starting_solutions=None, seed=None):
        pr = problem if isinstance(problem, Problem) else Problem(**{**problem})
        self.problem = pr
        me = tuple(self.get_parameters()[k] for k in ("epoch", "pop_size", "a", "b"))
        ats = (self.epoch, self.pop_size, self.a, self.b)
        k = (self.name, pr.name, ats)
        n = Stub.TABLE.setdefault(("n",) + k, 0); Stub.TABLE[("n",) + k] = n + 1
        f = Stub.TABLE["f"](self.name, pr.name, ats, n)
        Stub.LOG.append(dict(name=self.name, problem=pr.name, attrs=ats, params=me, mode=mode, n_workers=n_workers, termination=termination, fitness=f, start=starting_solutions, obj=self))
        self.history = History(log_to=None); self.history.list_global_best_fit = [f + 2, f + 1, f][:1 + (abs(int(f)) % 3)] + [f]
        self.g_best = mk(f)
        return self.g_best


def quad(x): return float(np.sum(np.asarray(x) ** 2))


def pdict(name="P", minmax="min"): return dict(bounds=SP.FloatVar(lb=(-5., -5.), ub=(5., 5.)), minmax=minmax, obj_func=quad, log_to=None, name=name)


def run_C17(rep):
    r = rep.r
    for it in range(rep.scale(160, 1500)):
        grid = {}
        for k in r.sample(["a", "b", "pop_size", "epoch"], r.randint(1, 3)):
            grid[k] = r.sample([1, 2, 3, 5, 8], r.randint(1, 3))
        trials = r.choice([1, 2, 2, 3, 4, 11]); minmax = r.choice(["min", "max"])
        combos = [dict(zip(grid, v)) for v in itertools.product(*grid.values())]
        tab = {}
        pal = r.choice([[0., 1.], [1., 2., 3., 4.], None, [-3., 7.]])
        ties = r.random() < 0.4
        def f(name, pn, ats, n):
            key = (ats, n % trials)
            if key not in tab:
                if ties:        # equal means, different spreads
                    sp = tab.setdefault(("s", ats), float(r.choice([0, 1, 2, 4])))
                    h = trials // 2
                    tab[key] = 8. + (sp if n % trials < h else -sp if n % trials < 2 * h else 0.)
                else: tab[key] = float(r.choice(pal)) if pal else r.uniform(-9, 9)
            return tab[key]
        Stub.LOG.clear(); Stub.TABLE.clear(); Stub.TABLE["f"] = f
        prob = pdict("P", minmax)
        as_obj = r.random() < 0.3
        if minmax == "min" and not as_obj and r.random() < 0.2: prob.pop("minmax")
        term = r.choice([None, dict(max_epoch=3)]); mode = r.choice(["single", "swarm", "thread"]); nw = r.choice([2, 3])
        opt = Stub()
        c = dict(grid=grid, trials=trials, minmax=minmax, ties=ties); rep.case(dict(c, i=it), len(combos) > 1)
        with quiet():
            if "minmax" not in prob and as_obj: prob["minmax"] = "min"
            if "minmax" not in prob: prob["minmax"] = "min"
            t = Tuner(opt, grid)
            st, e = raises(t.execute, problem=Problem(**prob) if as_obj else prob, termination=term, n_trials=trials, n_jobs=None, mode=mode, n_workers=nw, verbose=r.random() < 0.5, exc=())
        if st != "ok": rep.fail("execute raises", f"Tuner.execute raised {type(e).__name__}: {e}", c); continue
        dft = dict(epoch=10, pop_size=50, a=1, b=1.0)
        full = [tuple({**dft, **q}[k] for k in ("epoch", "pop_size", "a", "b")) for q in combos]
        runs = [l["attrs"] for l in Stub.LOG]
        rep.check(sorted(runs) == sorted(x for x in full for _ in range(trials)), "every combination", f"{len(runs)} runs for {len(combos)} combinations x {trials} trials, or with other hyper-parameters", c)
        rep.check(all(l["attrs"] == l["params"] and l["mode"] == mode and l["termination"] == term and l["n_workers"] == nw for l in Stub.LOG), "run settings", "a run did not get its settings", c)
        df = t.df_fit
        rep.check(len(df) == len(combos) and list(df["params"]) == combos, "rows", "the table does not have one row per combination", c)
        means, stds = [], []
        for row, q, x in zip(range(len(combos)), combos, full):
            vals = [tab[(x, i)] for i in range(trials)]
            got = [float(df[f"trial_{i+1}"].iloc[row]) for i in range(trials)]
            rep.check(got == vals, "recorded trials", lambda: f"row {q} records {got}, the trials gave {vals}", c)
            m = math.fsum(vals) / trials; means.append(m); stds.append(0. if trials == 1 else math.sqrt(math.fsum((v - m) ** 2 for v in vals) / (trials - 1)))
            rep.check(abs(float(df["trial_mean"].iloc[row]) - m) < 1e-9, "mean", f"mean of row {q} is {df['trial_mean'].iloc[row]}, expected {m}", c)
        best = min(means) if minmax == "min" else max(means)
        cand = [i for i in range(len(combos)) if abs(means[i] - best) < 1e-9]
        exact = pal is not None or ties
        if exact: cand2 = [i for i in cand if abs(stds[i] - min(stds[j] for j in cand)) < 1e-9]
        else: cand2 = cand
        bp = t.best_params
        ok = bp in [combos[i] for i in cand]
        rep.check(ok, "best params", lambda: f"best parameters {bp}, but {[combos[i] for i in cand]} have the best mean {best} (means {means}, {minmax})", c)
        if ok: rep.check(bp in [combos[i] for i in cand2], "tie break", lambda: f"best parameters {bp}; among equal means the smallest spread is at {[combos[i] for i in cand2]}", c)
        rep.check(abs(float(t.best_score) - best) < 1e-9, "best score", f"best score {t.best_score}, expected {best}", c)
        rep.check(list(t.best_row["params"])[0] == bp, "best row", "best row and best parameters disagree", c)
        ba = t.best_algorithm
        rep.check(all(getattr(ba, k) == v and ba.get_parameters()[k] == v for k, v in bp.items()), "best algorithm", f"best algorithm does not carry {bp}", c)
        Stub.LOG.clear()
        with quiet(): t.resolve(mode="swarm", termination=dict(max_epoch=2))
        rep.check(len(Stub.LOG) == 1 and Stub.LOG[0]["attrs"] == tuple({**dft, **bp}[k] for k in ("epoch", "pop_size", "a", "b")) and Stub.LOG[0]["mode"] == "swarm", "resolve", "resolve does not use the best parameters / given mode", c)
        # the convergence table
        rows = t.df_loss
        rep.check(len(rows) == len(combos) * trials, "loss rows", f"{len(rows)} convergence rows for {len(combos)}x{trials} runs", c)
    # a real optimizer, sequentially and in worker processes
    from mealpy import DE
    for nj in (None, 2):
        for minmax in ("min", "max"):
            with quiet():
                o = DE.OriginalDE(epoch=2, pop_size=10); t = Tuner(o, {"pop_size": [10, 12], "wf": [0.5, 0.7]})
                st, e = raises(t.execute, problem=pdict("P", minmax), n_trials=2, n_jobs=nj, mode="single", verbose=False, exc=())
            rep.case(("real", nj, minmax))
            if st != "ok": rep.fail("real tuner", f"tuning with n_jobs={nj} raised {type(e).__name__}: {e}"); continue
            df = t.df_fit; m = df[["trial_1", "trial_2"]].mean(axis=1)
            i = int(m.idxmin() if minmax == "min" else m.idxmax())
            rep.check(df["params"][i] == t.best_params and len(df) == 4, "real tuner best", f"n_jobs={nj}, {minmax}: best parameters {t.best_params}, best mean at {df['params'][i]}")


def run_C18(rep):
    r = rep.r
    # shapes
    for it in range(rep.scale(300, 3000)):
        n, m = r.randint(1, 4), r.randint(1, 4)
        algs = [Stub(name=f"A{i}") for i in range(n)]; probs = [pdict(f"P{j}") for j in range(m)]
        shape = r.choice(["one", "alg", "prob", "pair", "none", "bad"])
        k = {"one": 1, "alg": n, "prob": m, "pair": n * m, "none": None, "bad": None}[shape]
        modes_pool = ["single", "swarm", "thread", "process"]
        if shape == "bad":
            k = r.choice([q for q in range(0, 20) if q not in (1, n, m, n * m)])
        vals = None if shape == "none" else [r.choice(modes_pool) for _ in range(k)]
        terms = None if shape == "none" else [dict(max_epoch=i + 1) for i in range(k)]
        cont = r.choice([list, tuple])
        with quiet():
            st, mt = raises(Multitask, algorithms=cont(algs), problems=cont(probs), terminations=None if terms is None else cont(terms), modes=None if vals is None else cont(vals), n_workers=3)
        c = dict(n=n, m=m, shape=shape, k=k); rep.case((n, m, shape, k, it), shape in ("alg", "prob", "pair"))
        if shape == "bad":
            rep.check(st == "raised", "bad shape", f"{k} modes for {n} algorithms and {m} problems are accepted", c); continue
        if st != "ok": rep.fail("good shape", f"Multitask raised {type(mt).__name__}: {mt}", c); continue
        if shape == "none":
            rep.check(mt.modes is None and mt.terminations is None, "none", "no modes/terminations given, but stored", c); continue
        L = len(vals)
        want = lambda L_, i, j: 0 if L == 1 else i if L == n else j if L == m else i * m + j
        ok = len(mt.modes) == n and all(len(q) == m for q in mt.modes)
        rep.check(ok, "mode table", f"modes table is not {n}x{m}", c)
        if ok:
            for i in range(n):
                for j in range(m):
                    q = want(L, i, j)
                    if n == m and L == n and n > 1: alts = {vals[i], }
                    else: alts = {vals[q]}
                    rep.check(mt.modes[i][j] in alts, "mode pair", f"pair ({i},{j}) of {n}x{m} gets mode {mt.modes[i][j]} of the {L} given, expected number {q}", c)
                    rep.check(mt.terminations[i][j] == terms[q], "termination pair", f"pair ({i},{j}) of {n}x{m} gets termination {mt.terminations[i][j]}, expected {terms[q]}", c)
    for bad in ("single", 3, {"a": 1}):
        with quiet(): st, e = raises(Multitask, algorithms=[Stub()], problems=[pdict()], modes=bad)
        rep.case(("bad", repr(bad))); rep.check(st == "raised", "bad modes", f"modes={bad!r} accepted")
    # execution and the saved tables
    for it in range(rep.scale(40, 400)):
        n, m, trials = r.randint(1, 3), r.randint(1, 3), r.choice([1, 2, 3, 11])
        algs = [Stub(name=f"Alg{i}") for i in range(n)]; probs = [pdict(f"Prob{j}") if r.random() < 0.6 else Problem(**pdict(f"Prob{j}")) for j in range(m)]
        tab = {}
        def f(name, pn, ats, k):
            return tab.setdefault((name, pn, k), round(r.uniform(-9, 9), 6))
        Stub.LOG.clear(); Stub.TABLE.clear(); Stub.TABLE["f"] = f
        L = r.choice([1, n, m, n * m]); modes = [r.choice(["single", "swarm"]) if r.random() < 0.5 else f"m{i}" for i in range(L)]; terms = [dict(max_epoch=i + 1) for i in range(L)]
        useT = r.random() < 0.8
        d = tempfile.mkdtemp(prefix="vmt_")
        save_as = r.choice(["csv", "json", "dataframe"]); conv = r.random() < 0.7
        c = dict(n=n, m=m, trials=trials, L=L, save_as=save_as, conv=conv); rep.case(dict(c, it=it), n * m > 1)
        try:
            with quiet():
                mt = Multitask(algorithms=algs, problems=probs, terminations=terms if useT else None, modes=modes if useT else None, n_workers=3)
                st, e = raises(mt.execute, n_trials=trials, save_path=d, save_as=save_as, save_convergence=conv, verbose=r.random() < 0.5, exc=())
            if st != "ok": rep.fail("execute raises", f"Multitask.execute raised {type(e).__name__}: {e}", c); continue
            want = lambda i, j: 0 if L == 1 else i if L == n else j if L == m else i * m + j
            for i in range(n):
                for j in range(m):
                    calls = [q for q in Stub.LOG if q["name"] == f"Alg{i}" and q["problem"] == f"Prob{j}"]
                    rep.check(len(calls) == trials, "runs per pair", f"pair ({i},{j}) was solved {len(calls)} times for {trials} trials", c)
                    for q in calls:
                        rep.check(q["mode"] == (modes[want(i, j)] if useT else "single") and q["termination"] == (terms[want(i, j)] if useT else None), "run settings",
                                  f"pair ({i},{j}) was solved with mode {q['mode']} / termination {q['termination']}", c)
                        rep.check(q["n_workers"] == 3, "n_workers", "n_workers not passed on", c)
            rd = {"csv": lambda p: pd.read_csv(p + ".csv"), "json": lambda p: pd.read_json(p + ".json"), "dataframe": lambda p: pd.read_pickle(p + ".pkl")}[save_as]
            for i in range(n):
                p = f"{d}/best_fit/Alg{i}_best_fit"
                fs = [os.path.join(w, q) for w, _, qs in os.walk(d) for q in qs if f"Alg{i}_best_fit" in q]
                if not rep.check(len(fs) == 1, "fit file", f"{len(fs)} best-fit files for Alg{i}", c): continue
                df = rd(os.path.splitext(fs[0])[0])
                rep.check(list(df.columns) == [f"Prob{j}" for j in range(m)] and len(df) == trials, "fit table", f"best-fit table of Alg{i} has columns {list(df.columns)} and {len(df)} rows", c)
                for j in range(m):
                    if f"Prob{j}" in df: rep.check([round(float(v), 6) for v in df[f"Prob{j}"]] == [tab[(f"Alg{i}", f"Prob{j}", k)] for k in range(trials)], "fit values", lambda: f"best-fit column Alg{i}/Prob{j} is {list(df[f'Prob{j}'])}, runs gave {[tab[(f'Alg{i}', f'Prob{j}', k)] for k in range(trials)]}", c)
                    if conv:
                        fs = [os.path.join(w, q) for w, _, qs in os.walk(d) for q in qs if f"Prob{j}_convergence" in q and f"Alg{i}" in w]
                        if not rep.check(len(fs) == 1, "convergence file", f"{len(fs)} convergence files for Alg{i}/Prob{j}", c): continue
                        cv = rd(os.path.splitext(fs[0])[0])
                        rep.check(list(cv.columns) == [f"trial_{k+1}" for k in range(trials)], "convergence columns", f"convergence columns {list(cv.columns)}", c)
                        for k in range(trials):
                            f_ = tab[(f"Alg{i}", f"Prob{j}", k)]; w = [f_ + 2, f_ + 1, f_][:1 + (abs(int(f_)) % 3)] + [f_]
                            got = [round(float(v), 6) for v in cv[f"trial_{k+1}"].dropna()]
                            rep.check(got == [round(v, 6) for v in w], "convergence values", lambda: f"convergence of Alg{i}/Prob{j} trial {k+1} is {got}, the run gave {w}", c)
        finally: shutil.rmtree(d, ignore_errors=True)
    # real optimizers, worker processes
    from mealpy import DE, BBO
    d = tempfile.mkdtemp(prefix="vmt_")
    try:
        for nj in (None, 2):
            with quiet():
                mt = Multitask(algorithms=[DE.OriginalDE(epoch=2, pop_size=10, name="D"), BBO.OriginalBBO(epoch=2, pop_size=10, name="B")], problems=[pdict("P1"), pdict("P2", "max")], modes=["swarm", "single"])
                st, e = raises(mt.execute, n_trials=2, n_jobs=nj, save_path=d, save_as="csv", save_convergence=True, exc=())
            rep.case(("real", nj))
            if not rep.check(st == "ok", "real", f"Multitask with real optimizers (n_jobs={nj}) raised {e}"): continue
            for nm in "DB":
                df = pd.read_csv(f"{d}/best_fit/{nm}_best_fit.csv")
                for pn in ("P1", "P2"):
                    cv = pd.read_csv(f"{d}/convergence/{nm}/{pn}_convergence.csv")
                    for k in range(2):
                        rep.check(abs(float(df[pn][k]) - float(cv[f"trial_{k+1}"].dropna().iloc[-1])) < 1e-9 and len(cv[f"trial_{k+1}"].dropna()) == 2, "real tables", f"{nm}/{pn}: best fit {df[pn][k]} but convergence {list(cv[f'trial_{k+1}'])}")
    finally: shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ C19
def run_C19(rep):
    r = rep.r
    V = [transfer.vstf_01, transfer.vstf_02, transfer.vstf_03, transfer.vstf_04]; S = [transfer.sstf_01, transfer.sstf_02, transfer.sstf_03, transfer.sstf_04]
    pts = sorted({0., 1e-300, -1e-300, 1e100, -1e100, 1., -1., 700., -700., 710., 1e5, -1e5} | {r.uniform(-12, 12) for _ in range(rep.scale(3000, 40000))} | {r.choice([-1, 1]) * 10 ** r.uniform(-20, 20) for _ in range(rep.scale(2000, 20000))})
    x = np.array(pts)
    for fam, fs in (("V", V), ("S", S)):
        for f in fs:
            y = np.asarray(f(x), float); nm = f.__name__
            rep.case((nm, len(pts)))
            for q, v in zip(pts, y):
                if not (0 <= v <= 1): rep.fail(f"{nm} range", f"{nm}({q!r}) = {v!r} is outside [0, 1]", dict(fn=nm, x=q)); break
            if fam == "S":
                d = np.diff(y)
                k = np.where(d < -1e-15)[0]
                if len(k): rep.fail(f"{nm} increasing", f"{nm} decreases from {pts[k[0]]} to {pts[k[0]+1]}", dict(fn=nm))
                rep.check(abs(float(f(0.0)) - 0.5) < 1e-15, f"{nm} zero", f"{nm}(0) = {f(0.0)}, not one half")
                g = np.linspace(-2, 2, 401); rep.check(np.all(np.diff(f(g)) > 0), f"{nm} strictly", f"{nm} is not strictly increasing on [-2, 2]")
            else:
                z = np.asarray(f(-x), float)
                k = np.where(np.abs(y - z) > 1e-15)[0]
                if len(k): rep.fail(f"{nm} even", f"{nm}({pts[k[0]]}) = {y[k[0]]} but {z[k[0]]} at the opposite", dict(fn=nm, x=pts[k[0]]))
                rep.check(float(f(0.0)) == 0., f"{nm} zero", f"{nm}(0) = {f(0.0)}")
                a = np.sort(np.abs(x)); d = np.diff(np.asarray(f(a), float)); k = np.where(d < -1e-15)[0]
                if len(k): rep.fail(f"{nm} magnitude", f"{nm} decreases from |x|={a[k[0]]} to {a[k[0]+1]}", dict(fn=nm))
                g = np.linspace(0, 2, 401); rep.check(np.all(np.diff(f(g)) > 0), f"{nm} strictly", f"{nm} does not increase with magnitude on [0, 2]")
            for q in r.sample(pts, 40):
                s = float(f(q)); i = pts.index(q); rep.case((nm, q))
                rep.check(abs(s - y[i]) < 1e-12, f"{nm} scalar", f"{nm} on a number differs from the array result at {q}")
    maps = [n for n in dir(ChaoticMap) if n.endswith("_map")]
    rep.check(len(maps) >= 10, "maps", "chaotic maps are missing")
    pts = [0., 1., 0.5, 0.4, 0.7, 0.1, 0.9, 0.6, 0.25, 0.75, np.nextafter(0, 1), np.nextafter(1, 0), 1 / 3, 0.4999999999, 0.5000000001] + [i / 2000 for i in range(2001)] + [r.random() for _ in range(rep.scale(4000, 60000))]
    for nm in maps:
        f = getattr(ChaoticMap, nm); lo = -1. if nm == "chebyshev_map" else 0.
        if nm == "chebyshev_map": P = pts + [-q for q in pts]
        elif nm == "singer_map": P = [q for q in pts if q <= 0.999]      # f(1) is slightly negative by definition
        elif nm == "icmic_map": P = [q for q in pts if q == 0 or q >= 1e-100]
        else: P = pts
        rep.case((nm, len(P)))
        for q in P:
            v = float(f(q))
            if not (lo <= v <= 1): rep.fail(f"{nm} range", f"{nm}({q!r}) = {v!r} is outside [{lo}, 1]", dict(map=nm, x=q)); break
        for _ in range(rep.scale(20, 200)):     # orbits
            q = r.random(); path = [q]
            for _k in range(50):
                q = float(f(q)); path.append(q)
                if not (lo <= q <= 1): rep.fail(f"{nm} orbit", f"{nm}: the orbit of {path[0]!r} leaves the interval: {q!r}", dict(map=nm, path=path[-3:])); break
                q = min(max(q, lo), 1.)
                if nm == "singer_map" and q > 0.999 or nm == "icmic_map" and 0 < q < 1e-100: break
            rep.case((nm, path[0]))
    for _ in range(rep.scale(4000, 50000)):
        T = r.choice([1, 2, 3, 10, 100, 1000, r.randint(1, 5000)]); t = r.choice([0, 1, T, r.randint(0, T), T // 2, r.randint(0, T)]); t = min(t, T)
        ty = r.choice(["increase", "decrease"]); w = FuzzySystem(ty).get_fuzzy_weights(t, T)
        rep.case((ty, t, T))
        rep.check(len(w) == 3 and all(25 - 1e-9 <= float(q) <= 75 + 1e-9 for q in w), "fuzzy", f"fuzzy weights ({ty}) at iteration {t} of {T} are {w}", (ty, t, T))


# ------------------------------------------------------------------------------------------------ C20
def run_C20(rep):
    global _COUNT
    import multiprocessing as mp
    _COUNT = mp.Value("i", 0)
    r = rep.r
    for it in range(rep.scale(200, 1500)):
        n, d = r.randint(2, 7), r.randint(1, 4); mode = r.choice(["single", "swarm", "thread"]) if it % 40 else "process"
        pos = [[r.uniform(-5, 7) for _ in range(d)] for _ in range(n)]
        outer, inner = r.choice([list, tuple, np.array]), r.choice([list, tuple, np.array])
        start = outer([inner(p) for p in pos])
        o = Plain(epoch=1, pop_size=n); seen = {}
        ev = o.evolve
        def evolve(e):
            rep.check(all(isinstance(a.solution, np.ndarray) and a.solution.dtype == float for a in o.pop), "position type", "an initial position is not an array of numbers", dict(n=n, mode=mode))
            seen["pop"] = [(np.array(a.solution, float), a.target.fitness) for a in o.pop]; ev(e)
        if mode != "process": o.evolve = evolve
        kind = r.choice(["good", "good", "count", "dim", "type", "flat", "one"])
        if mode == "process": kind = "good"
        bad = start
        if kind == "count": bad = start[:-1] if r.random() < 0.5 else outer([inner(p) for p in pos + [pos[0]]])
        elif kind == "dim": bad = outer([inner(p + [1.]) for p in pos]) if r.random() < 0.5 or d == 1 else outer([inner(p[:-1]) for p in pos])
        elif kind == "type": bad = r.choice(["abc", {"a": 1}, 5, {1: 2}, "x" * n, set(range(n)), {i: p for i, p in enumerate(pos)}])
        elif kind == "one":     # a single wrong one among good ones
            q = r.randrange(n); bad = [inner(p) for p in pos]
            bad[q] = r.choice([inner(pos[q] + [1.]), inner(pos[q] + [0.] * d), "x" * d, 1.5, {i: v for i, v in enumerate(pos[q])}, [[v] for v in pos[q]]] + ([inner(pos[q][:-1])] if d > 1 else []))
            if r.random() < 0.5: bad = tuple(bad)
        elif kind == "flat": bad = [float(i) for i in range(n)]
        c = dict(n=n, dim=d, mode=mode, kind=kind, outer=outer.__name__, inner=inner.__name__); rep.case(dict(c, it=it))
        pr = dict(obj_func=delayed_obj, bounds=SP.FloatVar(lb=[-5.] * d, ub=[7.] * d), minmax="min", log_to=None)
        with quiet():
            P = Problem(**pr); _COUNT.value = 0
            st, g = raises(o.solve, P, mode=mode, n_workers=2 if mode in ("thread", "process") else None, starting_solutions=bad, seed=it)
        if kind != "good":
            rep.check(st == "raised", f"bad start {kind}", f"starting solutions with a wrong {kind} -> {st} ({type(g).__name__}) instead of ValueError", c)
            rep.check(_COUNT.value == 0, f"bad start evaluated", f"{_COUNT.value} evaluations before the bad starting solutions were rejected", c)
            continue
        if not rep.check(st == "ok", "good start", f"good starting solutions raised {g!r}", c): continue
        if mode == "process":
            o2 = prepared("process", 2, d, n); o2.before_initialization(start); o2.initialization()
            seen["pop"] = [(np.array(a.solution, float), a.target.fitness) for a in o2.pop]
        got = seen["pop"]
        rep.check(len(got) == n and all(np.array_equal(a, np.array(b, float)) for (a, _), b in zip(got, pos)), "initial population", f"the initial population is not the {n} given positions in order ({mode})", c)
        rep.check(all(abs(f - val_of(a)) < 1e-12 for a, f in got), "initial targets", f"an initial agent's target is not its objective value ({mode})", c)


# ------------------------------------------------------------------------------------------------ C22
def run_C22(rep):
    import pkgutil, importlib
    r = rep.r
    with quiet(): cat = mealpy.get_all_optimizers(verbose=False)
    # independent census: every Optimizer subclass defined in a module of an algorithm package
    truth, mods = {}, {}
    for pk in pkgutil.iter_modules(mealpy.__path__):
        if not pk.ispkg or not pk.name.endswith("_based"): continue
        p = importlib.import_module(f"mealpy.{pk.name}")
        for q in pkgutil.iter_modules(p.__path__):
            m = importlib.import_module(f"mealpy.{pk.name}.{q.name}")
            own = {k: v for k, v in vars(m).items() if inspect.isclass(v) and issubclass(v, Optimizer) and v is not Optimizer and v.__module__ == m.__name__}
            mods[q.name] = (m, own)
            for k, v in own.items(): truth.setdefault(k, v)
    rep.check(set(cat) == set(truth), "catalogue", f"missing: {sorted(set(truth) - set(cat))[:5]}, extra: {sorted(set(cat) - set(truth))[:5]}")
    for k, v in cat.items():
        rep.case(k); rep.check(v.__name__ == k and (k not in truth or v is truth[k]), "own name", f"the catalogue maps {k} to {v}")
        with quiet(): got = mealpy.get_optimizer_by_class(k)
        rep.check(got is v, "by class", f"get_optimizer_by_class({k}) = {got}")
    for k in ["Nope", "", "Optimizer", "DE", "originalde", "OriginalDE ", None] + ["".join(r.choice("abcXYZ_1") for _ in range(6)) for _ in range(30)]:
        if k in truth: continue
        rep.case(("unknown", k))
        with quiet(): st, got = raises(mealpy.get_optimizer_by_class, k, exc=())
        rep.check(st == "ok" and got is None, "unknown class", f"get_optimizer_by_class({k!r}) = {got!r}")
    for k, (m, own) in mods.items():
        if not hasattr(mealpy, k): rep.fail("module exported", f"module {k} is not exported by the package"); continue
        with quiet(): got = mealpy.get_optimizer_by_name(k)
        rep.case(("module", k))
        got2 = got or {}
        exp = {a: b for a, b in vars(m).items() if inspect.isclass(b) and issubclass(b, Optimizer) and b is not Optimizer}
        rep.check(set(own) <= set(got2) and all(got2[a] is exp.get(a) for a in got2), "by module", f"get_optimizer_by_name({k}) = {sorted(got2)}, the module's classes are {sorted(own)}")
    for k in ["Nope", "", "de", "OriginalDE", "np", "sys_", "xyz"]:
        if k in mods: continue
        with quiet(): got = mealpy.get_optimizer_by_name(k)
        rep.case(("unknown module", k)); rep.check(not got, "unknown module", f"get_optimizer_by_name({k!r}) = {got!r}")


# ------------------------------------------------------------------------------------------------ C23
def run_C23(rep):
    r = rep.r
    for it in range(rep.scale(900, 10000)):
        nv = r.choice([1, 1, 2, 3, 4, 6])
        vs = [rand_var(r, r.choice(["float", "int", "str", "cat", "seq", "perm", "bin", "bool"]), name=f"v{i}") for i in range(nv)]
        vars_ = [q[0] for q in vs]
        arg = vars_[0] if nv == 1 and r.random() < 0.5 else r.choice([list, tuple])(vars_)
        seed = r.randrange(10 ** 6)
        P = Problem(bounds=arg, minmax="min", obj_func=quad, log_to=None, seed=seed)
        c = dict(vars=[q[1] for q in vs]); rep.case((it, repr(c)), nv > 1)
        lens = [v.n_vars for v in vars_]
        lb = np.concatenate([np.asarray(v.lb, float) for v in vars_]); ub = np.concatenate([np.asarray(v.ub, float) for v in vars_])
        rep.check(np.array_equal(P.lb, lb) and np.array_equal(P.ub, ub) and P.n_dims == sum(lens) == len(lb), "bounds", "lb/ub/n_dims are not the variables' bounds in order", c)
        rep.check(len(P.bounds) == nv and all(a is b for a, b in zip(P.bounds, vars_)), "bounds list", "the problem's variables are not the given ones in order", c)
        rep.check(all(v.seed == seed for v in vars_) and P.seed == seed, "seed ctor", "constructing with a seed does not seed every variable", c)
        s2 = r.randrange(10 ** 6); P.set_seed(s2)
        rep.check(all(v.seed == s2 for v in vars_) and P.seed == s2, "set_seed", "set_seed does not seed every variable", c)
        exp = [np.random.default_rng(s2).random() for _ in vars_]
        rep.check([v.generator.random() for v in vars_] == exp, "set_seed generator", "set_seed does not reset every variable's generator", c)
        P.set_seed(s2); g1 = P.generate_solution(encoded=False); P.set_seed(s2); g2 = P.generate_solution(encoded=False)
        rep.check(repr(g1) == repr(g2), "seed determinism", "the same seed generates different solutions", c)
        P.set_seed(s2); e1 = P.generate_solution(encoded=True)
        ee = np.concatenate([np.asarray(v.encode(g), float) for v, g in zip(vars_, g1)])
        rep.check(np.array_equal(np.asarray(e1, float), ee), "generate encoded", "generate_solution(encoded) is not the encoding of the generated values", c)
        rep.check(len(g1) == nv, "generate length", f"{len(g1)} generated values for {nv} variables", c)
        x = np.concatenate([rand_vec(r, v) for v in vars_])
        x = np.where(np.isinf(x), 1e15 * np.sign(x), x)
        y = P.correct_solution(x.copy()); off = 0; want = []; dec = {}
        for v in vars_:
            sl = x[off:off + v.n_vars]; want += list(v.correct(sl.copy())); z = v.decode(sl.copy()); dec[v.name] = z[0] if v.n_vars == 1 else z; off += v.n_vars
        rep.check(np.array_equal(np.asarray(y, float), np.asarray(want, float)), "correct", "correct_solution is not each variable's repair of its own slice", dict(c, x=x.tolist()))
        D = P.decode_solution(x.copy())
        rep.check(list(D) == [v.name for v in vars_], "decode names", f"decoding names {list(D)}", c)
        same = lambda a, b: (list(np.atleast_1d(np.asarray(a, dtype=object))) == list(np.atleast_1d(np.asarray(b, dtype=object)))) if not isinstance(a, (tuple, list)) else list(a) == list(b)
        rep.check(all(k in D and same(D[k], dec[k]) for k in dec), "decode", "decode_solution is not each variable's decoding of its own slice", dict(c, x=x.tolist()))
        e = P.encode_solution(g1)
        rep.check(np.array_equal(np.asarray(e, float), ee), "encode", "encode_solution is not each variable's encoding in order", c)
    for it in range(rep.scale(60, 600)):              # the same variable listed several times (nothing is decoded: names repeat)
        vs = [rand_var(r, r.choice(["float", "int", "cat", "perm", "bin", "bool"]), name=f"v{i}") for i in range(r.choice([1, 2, 3]))]
        order = [r.randrange(len(vs)) for _ in range(r.choice([2, 3, 4]))]
        vars_ = [vs[k][0] for k in order]; c = dict(vars=[vs[k][1] for k in order], order=order); rep.case(("repeated", it, repr(c)), len(set(order)) < len(order))
        P = Problem(bounds=vars_, minmax="min", obj_func=quad, log_to=None)
        cat = lambda f: np.concatenate([np.asarray(f(v), float) for v in vars_])
        rep.check(len(P.bounds) == len(vars_) and all(a is b for a, b in zip(P.bounds, vars_)) and np.array_equal(P.lb, cat(lambda v: v.lb)) and np.array_equal(P.ub, cat(lambda v: v.ub)) and P.n_dims == sum(v.n_vars for v in vars_), "repeated variable", "bounds of a list that names a variable twice", c)
        x = cat(lambda v: rand_vec(r, v)); x = np.where(np.isinf(x), 1e15 * np.sign(x), x); off, want = 0, []
        for v in vars_: want += list(v.correct(x[off:off + v.n_vars].copy())); off += v.n_vars
        rep.check(np.array_equal(np.asarray(P.correct_solution(x.copy()), float), np.asarray(want, float)), "repeated variable", "correct_solution is not each variable's repair of its own slice", c)
        rep.check(len(P.generate_solution(encoded=True)) == P.n_dims, "repeated variable", "generated solution of another dimension", c)
    for bad in (5, "abc", None, {"a": 1}):
        rep.case(("bad bounds", repr(bad))); st, e = raises(Problem, bounds=bad, minmax="min", log_to=None, exc=(TypeError, ValueError))
        rep.check(st == "raised", "bad bounds", f"bounds={bad!r} accepted")
    st, e = raises(Problem, bounds=[SP.FloatVar(), (1, 2)], minmax="min", log_to=None); rep.check(st == "raised", "bad bound item", "a bound that is no variable is accepted")


# ------------------------------------------------------------------------------------------------ C24
def run_C24(rep):
    r = rep.r
    from mealpy import DE, PSO, GA, BBO
    d = tempfile.mkdtemp(prefix="vio_"); cwd = os.getcwd(); os.chdir(d)
    try:
        names = ["model", "model.pkl", "a.b", "x.pkl.pkl", "pkl", ".pkl", "m.PKL", "m.pk", "mpkl", "model.pickle", "a", "ab", "abc", "abcd", "sub/dir.x/model", "sub/dir.x/model.pkl", "ünï", "with space", "x.pkl ", "pkl.", "m..pkl", None]
        names += ["".join(r.choice("abpkl.") for _ in range(r.randint(1, 8))) for _ in range(rep.scale(120, 800))]
        os.makedirs("sub/dir.x")
        for k, nm in enumerate(names):
            if nm is not None and (set(nm) <= {"."} or nm.endswith("/")): continue
            full = "model.pkl" if nm is None else nm if nm.endswith(".pkl") else nm + ".pkl"
            if k % 12 == 0 or nm is None:
                cls = r.choice([DE.OriginalDE, PSO.OriginalPSO, GA.BaseGA, BBO.OriginalBBO])
                m = cls(epoch=r.randint(1, 3), pop_size=r.randint(10, 14), name=f"M{k}")
                with quiet(): m.solve(pdict(f"P{k}"), seed=k)
            before = set(os.path.join(w, f) for w, _, fs in os.walk(".") for f in fs)
            if os.path.exists(full): os.remove(full); before.discard(os.path.join(".", full))
            st, e = raises(mio.save_model, m, nm, exc=()); rep.case(("path", nm))
            c = dict(path=nm)
            if not rep.check(st == "ok", "save raises", f"saving to {nm!r} raised {e!r}", c): continue
            after = set(os.path.join(w, f) for w, _, fs in os.walk(".") for f in fs)
            rep.check(after - before == {os.path.join(".", full)}, "file name", f"saving to {nm!r} wrote {sorted(after - before)}, expected {full!r}", c)
            st, q = raises(mio.load_model, nm, exc=())
            if not rep.check(st == "ok", "load raises", f"loading {nm!r} raised {q!r}", c): continue
            rep.check(type(q) is type(m) and q.get_parameters() == m.get_parameters() and q.name == m.name and np.array_equal(q.g_best.solution, m.g_best.solution) and q.g_best.target.fitness == m.g_best.target.fitness
                      and q.history.list_global_best_fit == m.history.list_global_best_fit and [a.target.fitness for a in q.pop] == [a.target.fitness for a in m.pop] and q.problem.name == m.problem.name, "restored", f"the optimizer loaded from {nm!r} differs from the saved one", c)
            if r.random() < 0.9 and os.path.exists(full): os.remove(full)
        # a later save replaces the earlier one
        a, b = DE.OriginalDE(epoch=1, pop_size=10, name="first"), DE.OriginalDE(epoch=2, pop_size=20, name="second")
        mio.save_model(b, "same"); mio.save_model(a, "same.pkl"); rep.case("overwrite")
        rep.check(mio.load_model("same").name == "first", "overwrite", "loading returns an older saved optimizer")
        for path in (os.path.join(d, "abs"), os.path.join(d, "abs.pkl")):
            mio.save_model(a, path); rep.check(mio.load_model(path).name == "first" and os.path.exists(os.path.join(d, "abs.pkl")), "absolute path", f"{path}")
        # every class can be saved and restored after a search
        import optruns
        for name, cls in sorted(optruns.get_classes().items()):
            if not rep.thorough and r.random() < 0.75: continue
            with quiet():
                st, o = raises(optruns.construct, cls, 1, 16, {}, exc=())
                if st != "ok": continue
                st, g = raises(o.solve, pdict("P"), seed=3, exc=())
            if st != "ok": continue
            rep.case(("class", name))
            st, e = raises(lambda: (mio.save_model(o, "cl"), mio.load_model("cl"))[1], exc=())
            if not rep.check(st == "ok", f"{name} save", f"{name}: saving and loading raised {e!r}"): continue
            rep.check(type(e) is cls and e.get_parameters().keys() == o.get_parameters().keys() and e.g_best.target.fitness == o.g_best.target.fitness and len(e.history.list_global_best) == len(o.history.list_global_best), f"{name} restored", f"{name}: the loaded optimizer differs")
    finally:
        os.chdir(cwd); shutil.rmtree(d, ignore_errors=True)


RUN = {k[4:]: v for k, v in list(globals().items()) if k.startswith("run_C")}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--tier", default="quick"); ap.add_argument("--out")
    a = ap.parse_args()
    rep = Rep(a.pid, a.seed, a.tier)
    t = time.time()
    try: RUN[a.pid](rep)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f"{os.path.relpath(q.filename, REPO)}:{q.lineno} in {q.name}" for q in tb if q.filename.startswith(REPO)]
        if inrepo: rep.fail("crash", f"the code under check raised {type(e).__name__}: {e} at {inrepo[-1]}")
        else: rep.notes.append("harness error: " + traceback.format_exc()[-1500:])
    res = rep.result(); res["wall_s"] = round(time.time() - t, 2)
    s = json.dumps(res, default=str)
    if a.out: open(a.out, "w").write(s)
    else: print(json.dumps(res, indent=1, default=str)[:6000])


if __name__ == "__main__": main()
