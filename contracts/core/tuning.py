"""C17: Tuner.execute, for any grid, number of trials and outcome.  Searches have arbitrary results (FIT, CONV of the number of the search)."""
from pydv.corelib import *
from pydv.pv import NpNum, Rng, dict_set, Obj, PList, PDict, Opaque, Func, SymObj, Cls, PyExc
from contracts.core.runs import RunVC
ASSUME = ["pandas: mean and std are functions of the row, rank orders as its argument (ascending or descending; pairs lexicographically), min is the least value, a mask selects its rows in order; no NaN (two or more trials)",
          "worker processes run the searches on copies and return the results in the order of the trials"]
T_ = "mealpy.tuner."
PSORT, CSORT = z3.DeclareSort("Parameters"), z3.DeclareSort("Convergence")
FIT, CONV = z3.Function("FIT", I, R), z3.Function("CONV", I, CSORT)
P = z3.Function("grid", I, I)
FITROW = z3.Function("row.fitness", I, I, R)
MEAN, STD = z3.Function("row.mean", I, R), z3.Function("row.std", I, R)
c_, d_ = z3.Ints("c? d?")


def trial(key):
    """the number of the trial whose column the text names, or None"""
    if isinstance(key, str): return z3.IntVal(int(key[6:])) if key[:6] == "trial_" and key[6:].isdigit() else None
    if not isz(key): return None
    def num(k):         # "trial_5" is number 5, "trial_-5" number -5
        if k.decl().kind() == z3.Z3_OP_ITE: return num(k.arg(1)) if num(k.arg(1)) is not None else num(k.arg(2))
        if k.decl().kind() != z3.Z3_OP_SEQ_CONCAT or k.num_args() != 2 or not z3.is_string_value(k.arg(0)) or k.arg(0).as_string() != "trial_": return None
        return k.arg(1).arg(0) if k.arg(1).decl().eq(z3.IntToStr(c_).decl()) else None
    return num(z3.simplify(key))


class TuneVC(RunVC):
    def start(self):
        super().start()
        self.task, self.G, self.firsts = None, z3.Int("grid.len"), []
        self.pc.append(self.G >= 1)
        self.ghost = Obj("Ghost", runs=z3.IntVal(0)); self.roots = [self.ghost]
    # ---- the grid
    def hook(self, q, f, args, kw, node):
        if q == T_ + "ParameterGrid": return Obj("Grid", of=(list(args) + list(kw.values()))[0])
        if q.endswith("Tuner.__generate_dict_result"):
            d = dict(zip(["params", "trial", "loss_list"], args)); d.update(kw)
            return Obj("LossRow", **d)
        return super().hook(q, f, args, kw, node)
    def iterable(self, it):
        if isinstance(it, Obj) and it.cls == "Grid": return PList("list", n=self.G, get=lambda i: SymObj(P(term(i)), "Params"))
        return super().iterable(it)
    def isinstance_(self, v, c):
        v = self.force(v)
        if isinstance(v, Obj) and v.cls == "Either": raise Unsupported("the kind of the problem inside the loop")
        return super().isinstance_(v, c)
    def b_len(self, a, kw):
        v = self.force(a[0])
        if isinstance(v, Obj) and v.cls == "Grid": return self.G
        return super().b_len(a, kw)
    # ---- searches
    def x_Opt_solve(self, o, a, kw):
        g = self.ghost.f["runs"]
        r = term(g) if self.task is None else term(g) + self.task
        best = super().x_Opt_solve(o, a, kw)
        best.f["target"].f["fitness"] = FIT(r); o.f["history"].f["list_global_best_fit"] = Opaque("convergence", CONV(r))
        o.f["problem"] = Obj("Prob", of=self.given_problem)
        self.log[-1] += (o.f.get("$params"),)
        if self.task is None: self.ghost.f["runs"] = g + 1
        return best
    def x_Opt_set_parameters(self, o, a, kw):
        o.f["$params"] = self.given("set_parameters", a, kw).get("parameters"); return None
    def x_os_cpu_count(self, o, a, kw): return z3.Int("cpus")
    def ext_hook(self, name, self_, args, kw, node):
        if name.endswith(("ThreadPoolExecutor", "ProcessPoolExecutor")):
            if "Thread" in name: raise Unsupported("threads share the optimizer")
            return Obj("Executor")
        return super().ext_hook(name, self_, args, kw, node)
    def x_Executor_map(self, ex, a, kw):
        f, l = a[0], self.iterable(self.force(a[1])); self.parallel = True
        if len(a) > 2: raise Unsupported("map of several sequences")
        def one(i):
            o = f.self_
            w = Obj(o.cls); w.f.update(o.f); w.f["algorithm"] = Obj("Opt", **o.f["algorithm"].f)
            self.task = term(i)
            try: return self.call(Func(f.fn, w, f.name, f.lam, f.env, f.mod, f.cls, f.part), [l.get(i)], {})
            finally: self.task = None
        return PList("list", n=l.n, get=one)
    # ---- rows
    def x_Rows_append(self, o, a, kw): o.f["new"] = o.f["new"] + [a[0]]
    def getitem(self, b, i):
        b = self.force(b)
        if isinstance(b, Obj) and b.cls == "Rows":
            if i != -1 or not b.f["new"]: raise Unsupported("an element of the rows so far")
            return b.f["new"][-1]
        if isinstance(b, Obj) and b.cls in ("Frame", "Sub", "Values"): return self.frameitem(b, self.force(i))
        return super().getitem(b, i)
    def setitem(self, b, i, v):
        b, i = self.force(b), self.force(i)
        if isinstance(b, PDict) and trial(i) is not None:
            if not hasattr(b, "cells"): b.cells, b.has = z3.K(I, z3.RealVal(0)), z3.K(I, z3.BoolVal(False))
            t = trial(i); b.cells, b.has = z3.Store(b.cells, t, real(v)), z3.Store(b.has, t, z3.BoolVal(True)); return
        if isinstance(b, Obj) and b.cls == "Frame":
            if not isinstance(i, str) or not isinstance(v, Ser): raise Unsupported("a column")
            b.f["cols"] = {**b.f["cols"], i: v}; return
        return super().setitem(b, i, v)
    # ---- pandas
    def x_pandas_DataFrame(self, o, a, kw):
        v = a[0] if a else kw.get("data")
        if not isinstance(v, Obj) or v.cls != "Rows" or v.f["kind"] is None or kw and set(kw) != {"data"}: raise Unsupported("a table")
        return Obj("Frame", kind=v.f["kind"], cols={"params": Ser(lambda i: SymObj(P(i), "Params"))} if v.f["kind"] == "fit" else {})
    def frameitem(self, b, i):
        if b.cls == "Values":
            if i != 0: raise Unsupported("another row than the first")
            m, s = b.f["mask"], b.f["ser"]
            f = self.new("first", I)
            for x in self.firsts:
                if x[1] is m: f = x[0]; break
            else:
                self.need(z3.Exists([i_], z3.And(0 <= i_, i_ < self.G, m.get(i_))), "IndexError")
                self.assume(z3.And(0 <= f, f < self.G, m.get(f), z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < f), z3.Not(m.get(i_))))))
                self.firsts.append((f, m))
            return s.get(f)
        if b.cls == "Sub":
            if not isinstance(i, str): raise Unsupported("a part of some rows")
            return Obj("Part", ser=self.frameitem(b.f["frame"], i), mask=b.f["mask"])
        if isinstance(i, str):
            if i not in b.f["cols"]: raise PyExc("KeyError")
            return b.f["cols"][i]
        if isinstance(i, Ser): return Obj("Sub", frame=b, mask=i)
        if isinstance(i, PList) and i.items is not None and all(isinstance(x, str) and trial(x) is None for x in i.items): return Obj("Cols", sers=[self.frameitem(b, x) for x in i.items])
        if isinstance(i, PList) and b.f["kind"] == "fit":
            n = term(i.n); t = trial(i.get(c_))
            if t is None: raise Unsupported(f"columns {z3.simplify(i.get(c_))}")
            self.oblige("the statistics are over the trials of the row, each once", z3.And(n == self.T, z3.ForAll([c_], z3.Implies(z3.And(0 <= c_, c_ < n), z3.And(1 <= t, t <= self.T))), z3.ForAll([c_, d_], z3.Implies(z3.And(0 <= c_, c_ < d_, d_ < n), t != trial(i.get(d_))))))
            return Obj("Trials")
        raise Unsupported("an element of a table")
    def getattr(self, b, a):
        b2 = self.force(b)
        if isinstance(b2, Obj) and b2.cls == "Part" and a == "values": return Obj("Values", **b2.f)
        if isinstance(b2, Ser): return Func(name="Ser." + a, self_=b2)
        return super().getattr(b, a)
    def stat(self, f, o, a, kw):
        if a and a[0] != 1 or not a and kw.get("axis") not in (1, "columns") or set(kw) - {"axis"}: raise Unsupported("a statistic over rows")
        return Ser(lambda i: f(i))
    def x_Trials_mean(self, o, a, kw): return self.stat(MEAN, o, a, kw)
    def x_Trials_std(self, o, a, kw): return self.stat(STD, o, a, kw)
    def x_Cols_apply(self, o, a, kw):
        if not isinstance(a[0], Func) or a[0].name != "builtins.tuple" or kw.get("axis") != 1: raise Unsupported("apply")
        return Ser(lambda i: [s.get(i) for s in o.f["sers"]])
    def x_Ser_rank(self, s, a, kw):
        asc = kw.get("ascending", True)
        if a or kw.get("method", "average") not in ("average", "min", "max", "dense") or set(kw) - {"ascending", "method"}: raise Unsupported("rank")
        asc = self.branch(asc) if isz(asc) else asc
        f = self.newfun("rank", I, R)
        def lt(x, y):
            if not isinstance(x, list): return x < y
            r = z3.BoolVal(False)
            for p, q in list(zip(x, y))[::-1]: r = z3.Or(p < q, z3.And(p == q, r))
            return r
        x, y = s.get(i_), s.get(k_)
        dom = z3.And(0 <= i_, i_ < self.G, 0 <= k_, k_ < self.G)
        self.assume(z3.ForAll([i_, k_], z3.Implies(dom, (f(i_) < f(k_)) == (lt(x, y) if asc is True else lt(y, x))), patterns=[z3.MultiPattern(f(i_), f(k_))]))
        return Ser(lambda i: f(term(i)))
    def x_Ser_min(self, s, a, kw):
        m, w = self.new("min", R), self.new("argmin", I)
        self.assume(z3.And(0 <= w, w < self.G, s.get(w) == m, z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < self.G), m <= s.get(i_)), patterns=[s.get(i_)])))
        return m
    def x_Ser_max(self, s, a, kw):
        m, w = self.new("max", R), self.new("argmax", I)
        self.assume(z3.And(0 <= w, w < self.G, s.get(w) == m, z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < self.G), m >= s.get(i_)), patterns=[s.get(i_)])))
        return m
    def eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ser) and not isinstance(y, Ser): return Ser(lambda i: x.get(i) == term(y))
        return super().eq(a, b)
    def truth(self, v):
        if isinstance(v, Ser): raise Unsupported("the truth of a column")
        return super().truth(v)
    def e_Compare(self, e):
        if len(e.ops) == 1 and isinstance(e.ops[0], ast.Eq):
            a, b = self.force(self.ev(e.left)), self.force(self.ev(e.comparators[0]))
            if isinstance(a, Ser) or isinstance(b, Ser): return self.eq(a, b)
            return self.compare(e.ops[0], a, b)
        return super().e_Compare(e)


class Ser:
    """a column of the table: one value per row"""
    def __init__(self, get): self.get = get


def rows_in(env): return [(x, v) for x, v in env.items() if isinstance(v, Obj) and v.cls == "Rows"]
def theproblem(vc, o):
    """the problem as given, or as the optimizer made it from that"""
    return given(vc, o.f["problem"])
def given(vc, p): return p is vc.given_problem or isinstance(p, Obj) and p.cls in ("Prob", "Either") and p.f.get("of") is vc.given_problem
def anyproblem(vc, o):
    o.f["problem"] = Obj("Either", of=vc.given_problem)
    alg = o.f["algorithm"]
    for f in ("history", "problem", "g_best"): alg.f[f] = Opaque(f)


class Outer(Inv):
    """one row per combination"""
    def __init__(self): super().__init__(None); self.kinds = {}
    def goals(self, vc, env, k, n):
        g = [("it is over the grid, in order", term(n) == vc.G)]
        if isinstance(k, int): return g + [("nothing is in the tables yet", not any(isinstance(v, Obj) and v.cls == "Rows" for v in env.values()))]
        if vc.outer is None: vc.outer = term(k)
        else:
            k0 = vc.outer
            g.append(("the problem stays the given one", bool(theproblem(vc, env["self"]))))
            for x, l in rows_in(env):
                new = l.f["new"]
                if any(isinstance(v, (PDict)) for v in new) and any(isinstance(v, tuple) for v in new): raise Unsupported("rows and convergence in one list")
                if any(isinstance(v, (PDict)) for v in new):
                    self.kinds[x] = "fit"
                    ok = len(new) == 1 and hasattr(new[0], "cells") and [y for y, _ in new[0].items] == ["params"] and isinstance(new[0].items[0][1], SymObj)
                    g.append(("each combination has one row, with its parameters", z3.BoolVal(bool(ok)) if not ok else new[0].items[0][1].t == P(k0)))
                    if ok: g.append(("the row has the fitness of each trial of the combination", z3.ForAll([c_], z3.Implies(z3.And(0 <= c_, c_ < vc.T), z3.And(new[0].has[c_ + 1], new[0].cells[c_ + 1] == FIT(vc.base + c_))))))
                elif new:
                    self.kinds[x] = "loss"
                    g.append(("the convergence of each trial of the combination is recorded once", new[0][1] == vc.T if len(new) == 1 and isinstance(new[0], tuple) else False))
            g.append(("both tables get their rows", sorted(self.kinds.get(x, "") for x, _ in rows_in(env)) == ["fit", "loss"]))
        return g
    def havoc(self, vc, env, modified):
        o = env["self"]
        anyproblem(vc, o)
        o.f["algorithm"].f["$params"] = Opaque("parameters of the row before")
        vc.base = vc.new("searches before", I); vc.ghost.f["runs"] = vc.base
        for x in list(env):
            if isinstance(env[x], PList) and env[x].items == [] and env[x].kind == "list": env[x] = Obj("Rows", new=[], kind=self.kinds.get(x))
            elif x in modified and not isinstance(env[x], Obj): env[x] = Opaque(x)
        vc.outer = None; vc.parallel = False
class Trials(Inv):
    """one search per trial"""
    def __init__(self): super().__init__(None); self.names = None
    serial = property(lambda self: not self.vc.parallel)
    def goals(self, vc, env, k, n):
        self.vc = vc
        rows = [v for v in env.values() if isinstance(v, PDict)] + [v for _, l in rows_in(env) for v in l.f["new"] if isinstance(v, PDict)]
        rows = [v for v in rows if any(y == "params" for y, _ in v.items)]
        if not rows or any(r is not rows[0] for r in rows): raise Unsupported("the row of the loop")
        row = rows[0]
        par = dict(row.items)["params"]
        if isinstance(k, int): vc.row = row
        elif row is not vc.row: raise Unsupported("the row of the loop")
        k = term(k)
        g = [("one search per trial", term(n) == vc.T), ("the problem stays the given one", bool(theproblem(vc, env["self"]))), ("the searches so far", True)]
        if self.serial: g.append(("each search is counted", term(vc.ghost.f["runs"]) == vc.base + k))
        if hasattr(row, "cells"): g.append(("the fitness of the trials so far", z3.ForAll([c_], z3.Implies(z3.And(0 <= c_, c_ < k), z3.And(row.has[c_ + 1], row.cells[c_ + 1] == FIT(vc.base + c_))))))
        else: g.append(("the fitness of the trials so far", k == 0))
        for x, l in rows_in(env):
            new = l.f["new"]
            if new and isinstance(new[0], tuple) and new[0][1] is None: l.f["new"] = new = [("block", k)]
            if new and isinstance(new[0], tuple) and len(new) == 2:        # after the body
                self.names = (self.names or set()) | {x}
                r = new[1]; k0 = new[0][1]
                ok = isinstance(r, Obj) and r.cls == "LossRow" and isinstance(r.f.get("loss_list"), Opaque) and r.f["loss_list"].t is not None
                g.append(("the convergence of the trial is recorded with its parameters and number", z3.And(z3.BoolVal(r.f["params"] is par), term(r.f["trial"]) == k0, r.f["loss_list"].t == CONV(vc.base + k0)) if ok else False))
                ok = len(vc.log) == vc.logged + 1 and vc.log[-1][0] == "solve"
                g.append(("exactly one search", ok))
                if ok:
                    d = vc.log[-1][1]
                    md = vc.mode; want = z3.If(z3.Or([md == z3.StringVal(m) for m in ("process", "thread", "single", "swarm")]), md, z3.StringVal("single"))
                    p = d.get("problem")
                    g += [("the search has the parameters of the row", vc.log[-1][4] is par), ("the search gets the given problem", given(vc, p)),
                          ("the search gets the given mode", term(d["mode"]) == want if isz(d.get("mode")) or isinstance(d.get("mode"), str) else False), ("the search gets the given termination", d.get("termination") is vc.term0), ("the search gets the given number of workers", d.get("n_workers") is vc.workers0), ("no seed and no starting solutions", d.get("seed") is None and d.get("starting_solutions") is None)]
            elif new and not isinstance(new[0], (tuple, PDict)) or len(new) > 1: raise Unsupported("the lists of the loop")
        return g
    def havoc(self, vc, env, modified):
        anyproblem(vc, env["self"])
        row = vc.row
        row.cells, row.has = vc.new("cells", z3.ArraySort(I, R)), vc.new("has", z3.ArraySort(I, B))
        vc.logged = len(vc.log)
        if self.serial: vc.ghost.f["runs"] = vc.new("runs", I)
        for x, l in rows_in(env):
            if not l.f["new"] and (self.names is None or x in self.names): l.f["new"] = [("block", None)]
        for x in modified:
            if x in env and not isinstance(env[x], (Obj, PList)): env[x] = Opaque(x)


class Execute(Contract):
    target, props, make, proof_only, uses = T_ + "Tuner.execute", ("C17",), TuneVC, True, ()
    def __init__(self): super().__init__(); self.loops = {0: Outer(), 1: Trials(), 2: Trials()}
    def args(self, vc):
        vc.T, vc.mode, vc.term0, vc.workers0 = z3.Int("n_trials"), z3.String("mode"), Opaque("termination"), Opaque("n_workers")
        vc.pc += [vc.T >= 2, vc.T <= 100000, z3.Int("cpus") >= 4]
        vc.dir = vc.minmax()
        k = vc.choice(3)
        p = Obj(vc.repo.cls("mealpy.utils.problem.Problem"), minmax=vc.dir) if k == 0 else PDict([("minmax", vc.dir)] if k == 1 else [])
        if k == 2: vc.dir = z3.StringVal("min")
        vc.given_problem = p
        o = Obj(vc.repo.cls("mealpy.tuner.Tuner"), algorithm=Obj("Opt", history=Opaque("h"), problem=Opaque("p"), g_best=Opaque("g")), param_grid=Opaque("grid"), validator=Obj(vc.repo.cls("mealpy.utils.validator.Validator")), _best_params=None, _best_row=None, _best_score=None)
        o.f["algorithm"].f["$params"] = None
        j = None
        if vc.choice(2): j = z3.Int("n_jobs"); vc.pc.append(z3.Or(j < 1, z3.And(2 <= j, j <= 61, j <= z3.Int("cpus") - 1)))
        return {"self": o, "problem": p, "termination": vc.term0, "n_trials": vc.T, "n_jobs": j, "mode": vc.mode, "n_workers": vc.workers0, "verbose": z3.Bool("verbose")}
    def ensures(self, vc, a, old, r):
        f = a["self"].f
        fr, ls, row, par, sc = f.get("df_fit"), f.get("df_loss"), f["_best_row"], f["_best_params"], f["_best_score"]
        fit = isinstance(fr, Obj) and fr.cls == "Frame" and fr.f["kind"] == "fit"
        g = [("the table of fitness values is kept", bool(fit)), ("the table of convergences is kept", isinstance(ls, Obj) and ls.cls == "Frame" and ls.f["kind"] == "loss"), ("the given problem is kept", bool(theproblem(vc, a["self"])))]
        if not fit: return g
        if not (isinstance(row, Obj) and row.cls == "Sub" and row.f["frame"] is fr and isinstance(par, SymObj) and isz(sc) and len(vc.firsts) == 1): return g + [("the best row, its parameters and its score are kept", False)]
        b = vc.firsts[0][0]; lo = vc.dir == z3.StringVal("min")
        good = lambda j: z3.Or(z3.If(lo, MEAN(b) < MEAN(j), MEAN(b) > MEAN(j)), z3.And(MEAN(b) == MEAN(j), STD(b) <= STD(j)))
        return g + [("the best row is of the table", row.f["mask"].get(b)), ("the best parameters are of that row", par.t == P(b)), ("the best score is the mean of that row", sc == MEAN(b)),
                    ("the row is best by the mean in the direction of the problem, then by the spread", forall(vc.G, good))]


class DictVC(RunVC):
    """a dictionary may end with pairs of unknown number (tail)"""
    def np_arange(self, a, kw):
        if len(a) > 2 or kw: raise Unsupported("arange with a step")
        l = self.iterable(Rng(*([0, a[0]] if len(a) == 1 else a), 1)); l.kind = "array"; return l
    def e_Dict(self, e):
        vs = [self.ev(v) if k is None else None for k, v in zip(e.keys, e.values)]
        tails = [x for x, v in enumerate(vs) if isinstance(v, PDict) and v.seq is not None]
        if not tails: return super().e_Dict(e)
        if tails != [len(vs) - 1] or any(v is None for v in vs): raise Unsupported("the parts of the dictionary")
        d = PDict()
        for v in vs[:-1]:
            for k, x in v.items: dict_set(d.items, k, x)
        d.tail = vs[-1].seq; d.frozen = True; return d


class DictResult(Contract):
    """the row of the convergence table: the parameters, the trial, and the best fitness of each epoch under its number"""
    target, props, make, proof_only, uses = T_ + "Tuner.__generate_dict_result", ("C17",), DictVC, True, ()
    def args(self, vc):
        n = z3.Int("epochs"); vc.pc.append(n >= 0); f = z3.Function("loss", I, R)
        vc.vals = [Opaque("value a"), Opaque("value b")]
        return {"self": Obj(vc.repo.cls("mealpy.tuner.Tuner")), "params": PDict([("alpha", vc.vals[0]), ("beta", vc.vals[1])]), "trial": z3.Int("trial"), "loss_list": PList("list", n=n, get=lambda i: f(term(i)))}
    def ensures(self, vc, a, old, r):
        if not isinstance(r, PDict) or not hasattr(r, "tail"): return [("the parameters, the trial and the epochs", False)]
        d = dict(r.items); e = r.tail.get(i_)
        num = lambda x: x.v if isinstance(x, NpNum) else x
        return [("the parameters and the trial", z3.And(z3.BoolVal(set(d) == {"alpha", "beta", "trial"} and d["alpha"] is vc.vals[0] and d["beta"] is vc.vals[1]), term(d["trial"]) == a["trial"]) if "trial" in d else False),
                ("the given parameters stay as they are", [k for k, _ in a["params"].items] == ["alpha", "beta"]),
                ("every epoch has its fitness under its number", z3.And(term(r.tail.n) == term(a["loss_list"].n), forall(r.tail.n, lambda i: z3.And(term(num(r.tail.get(i).items[0])) == i + 1, real(r.tail.get(i).items[1]) == a["loss_list"].get(i)))))]


CONTRACTS = [Execute, DictResult]
