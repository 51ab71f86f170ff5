"""C18: Multitask.execute, for any number of algorithms, problems and trials, and any outcome.  Searches have arbitrary results (FIT, CLEN, CVAL of the number of
the search); the loops over algorithms and problems are decided for one arbitrary round each."""
from pydv.corelib import *
from pydv.pv import XF, Obj, PList, PDict, Opaque, Func, SymObj, Cls, PyExc
from contracts.core.runs import RunVC
from contracts.core.tuning import trial
ASSUME = ["the problems have different names, and so have the algorithms", "a pandas table of a dictionary of columns has these columns",
          "worker processes run the searches on copies and return the results in the order of the trials"]
M_ = "mealpy.multitask.Multitask."
S_ = z3.StringSort()
FIT, CLEN, CVAL = z3.Function("FIT", I, R), z3.Function("CLEN", I, I), z3.Function("CVAL", I, I, XF)
ANAME, NAME = z3.Function("algorithm.name", I, S_), z3.Function("problem.name", I, S_)
TERM, MODE = z3.Function("termination", I, I, z3.DeclareSort("GivenTermination")), z3.Function("mode", I, I, S_)
ISOPT = z3.Function("is.optimizer", I, B)
c_, e_ = z3.Ints("c? e?")


def conv(r): return _conv(term(r))
def _conv(r):
    l = PList("list", n=CLEN(r), get=lambda e: CVAL(r, term(e))); l.run = r; return l
def within(vc, i, n): return z3.And(0 <= i, i < n)


class TasksVC(RunVC):
    def start(self):
        super().start()
        self.NA, self.NP, self.T = z3.Ints("n_algorithms m_problems n_trials")
        self.pc += [self.NA >= 1, self.NP >= 1, self.T >= 1, self.T <= 100000, z3.Int("cpus") >= 4, z3.ForAll([i_], CLEN(i_) >= 0)]
        self.ghost = Obj("Ghost", runs=z3.IntVal(0), last=None); self.roots = [self.ghost]
        self.task, self.parallel, self.exports, self.alg, self.prob, self.padding = None, False, [], None, None, False
    def isinstance_(self, v, c):
        v = self.force(v)
        if isinstance(v, SymObj) and v.cls == "TaskOpt" and isinstance(c, Cls) and c.name == "Optimizer": return ISOPT(v.t)
        return super().isinstance_(v, c)
    def symattr(self, b, a):
        if b.cls == "TaskOpt" and a in ("history", "problem", "g_best"):
            l = self.ghost.f["last"] if self.task is None else self.tasklast
            if not isinstance(l, Obj): raise Unsupported("the result of an earlier search")
            return {"history": l.f["history"], "problem": l.f["problem"], "g_best": l.f["best"]}[a]
        if b.cls == "TaskProblem":
            if a == "name": return NAME(b.t)
            if a != "get_name": raise Unsupported("a field of a problem")
        if b.cls == "TaskOpt" and a not in ("solve", "get_name"): raise Unsupported("a field of an optimizer")
        return super().symattr(b, a) if b.cls != "TaskOpt" else NotImplemented
    def x_TaskOpt_get_name(self, o, a, kw): return ANAME(o.t)
    def x_TaskProblem_get_name(self, o, a, kw): return NAME(o.t)
    def x_Prob_get_name(self, o, a, kw): return NAME(o.f["index"])
    def x_TaskOpt_solve(self, o, a, kw):
        g = self.ghost.f["runs"]
        r = term(g) if self.task is None else term(g) + self.task
        d = self.given("solve", a, kw)
        p = d.get("problem")
        best = Obj("Best", target=Obj("BestTarget", fitness=FIT(r), objectives=Opaque("objectives")), solution=Opaque("solution"))
        last = Obj("Last", history=Obj("Hist", list_global_best_fit=conv(r)), best=best, problem=Obj("Prob", index=p.t if isinstance(p, SymObj) else self.new("problem", I)))
        self.log.append((o, d))
        if self.task is None: self.ghost.f["runs"] = g + 1; self.ghost.f["last"] = last
        else: self.tasklast = last
        return best
    def x_os_cpu_count(self, o, a, kw): return z3.Int("cpus")
    def x_pathlib_Path(self, o, a, kw): return Obj("Path")
    def x_Path_mkdir(self, o, a, kw): return None
    def ext_hook(self, name, self_, args, kw, node):
        if name.endswith("ThreadPoolExecutor"): raise Unsupported("threads share the optimizers")
        if name.endswith("ProcessPoolExecutor"): return Obj("Executor")
        return super().ext_hook(name, self_, args, kw, node)
    def x_Executor_map(self, ex, a, kw):
        if len(a) > 2: raise Unsupported("map of several sequences")
        f, l = a[0], self.iterable(self.force(a[1])); self.parallel = True
        def one(i):
            self.task = term(i)
            try: return self.call(f, [l.get(i)], {})
            finally: self.task = None
        return PList("list", n=l.n, get=one)
    def hook(self, q, f, args, kw, node):
        if q.startswith(M_ + "export_to_"):
            d = dict(zip(["result", "save_path"], args)); d.update(kw)
            self.exports = self.exports + [(q[len(M_) + 10:], d.get("result"), d.get("save_path"))]; return None
        return super().hook(q, f, args, kw, node)
    # ---- the dictionaries
    def problemkey(self, i): return isz(i) and z3.is_app(i) and i.decl().eq(NAME)
    def setitem(self, b, i, v):
        b, i = self.force(b), self.force(i)
        if isinstance(b, PDict) and self.problemkey(i):
            if b.items: raise Unsupported("a table of different things")
            b.new = getattr(b, "new", []) + [(i.arg(0), copylist(v) if isinstance(v, PList) else v)]; return
        if isinstance(b, PDict) and trial(i) is not None:
            if b.items or hasattr(b, "new"): raise Unsupported("a table of different things")
            t = trial(i)
            if not hasattr(b, "runs"): b.runs, b.has, b.pad, b.padlen = z3.K(I, z3.IntVal(-1)), z3.K(I, z3.BoolVal(False)), z3.K(I, z3.BoolVal(False)), None
            v = self.force(v)
            if isinstance(v, PList) and hasattr(v, "run"):
                b.runs, b.has = z3.Store(b.runs, t, v.run), z3.Store(b.has, t, z3.BoolVal(True)); return
            if not isinstance(v, PList): raise Unsupported("a column")
            r = b.runs[t]; x = v.get(e_)
            if b.padlen is None: raise Unsupported("columns are changed outside of a loop")
            self.oblige("the column stays the convergence of its trial, filled up with undefined values", z3.And(b.has[t], CLEN(r) <= term(v.n), term(v.n) == b.padlen, z3.ForAll([e_], z3.Implies(z3.And(0 <= e_, e_ < term(v.n)), term(x) == z3.If(e_ < CLEN(r), CVAL(r, e_), XF.nan)))))
            b.pad = z3.Store(b.pad, t, z3.BoolVal(True)); return
        if isinstance(b, PDict) and (hasattr(b, "new") or hasattr(b, "runs")) or isinstance(b, PDict) and not isinstance(i, (str, int)): raise Unsupported("a table with another key")
        return super().setitem(b, i, v)
    def copyof(self, r):
        l = _conv(r); return l
    def d_items(self, d, a, kw):
        if hasattr(d, "runs"):
            if d.done is None: raise Unsupported("the trials so far")
            return PList("list", n=d.done, get=lambda c: PList("tuple", [self.concat_str(["trial_", self.int_to_str(term(c) + 1)]), self.copyof(d.runs[term(c) + 1])]))
        return super().d_items(d, a, kw)
    def d_values(self, d, a, kw):
        if hasattr(d, "runs"): l = self.d_items(d, a, kw); return PList("list", n=l.n, get=lambda c: l.get(c).items[1])
        return super().d_values(d, a, kw)
    def x_pandas_DataFrame(self, o, a, kw):
        v = a[0] if a else kw.get("data")
        if not isinstance(v, PDict) or kw and set(kw) != {"data"}: raise Unsupported("a table")
        return Obj("Frame", of=v)


def empties(env): return [x for x, v in env.items() if isinstance(v, PDict) and not v.items and v.seq is None and v.default is None and not hasattr(v, "new") and not hasattr(v, "runs")]
def subst_eq(vc, t, want): return t == want


class Loop(Inv):
    def __init__(self): super().__init__(None); self.kind, self.result, self.col, self.lst = None, set(), None, None
    def entry(self, vc, env, n):
        if n is None: raise Unsupported("a while loop")
        n = z3.simplify(term(n))
        if vc.padding: self.kind = "padding"
        elif z3.eq(n, vc.NA): self.kind = "algorithms"
        elif z3.eq(n, vc.NP): self.kind = "problems"
        else: self.kind = "trials"
        self.head = False
    def goals(self, vc, env, k, n):
        if isinstance(k, int): self.entry(vc, env, n)
        return getattr(self, self.kind)(vc, env, term(k), term(n), isinstance(k, int))
    def havoc(self, vc, env, modified):
        for x in modified:
            if x in env and not isinstance(env[x], (Obj, PList, PDict)): env[x] = Opaque(x)
            elif x in env and self.kind in ("algorithms", "problems"): env[x] = Opaque(x)      # (what an earlier round left)
        getattr(self, "h_" + self.kind)(vc, env, modified)
        self.head = True

    # ---- one algorithm
    def algorithms(self, vc, env, k, n, entry):
        g = [("it is over the algorithms", n == vc.NA)]
        if entry: return g + [("nothing is exported yet", not vc.exports)]
        if self.head: self.head = False; vc.alg = k; vc.exports = []; return g
        i = vc.alg; ex = vc.exports; opt = ISOPT(i)
        if not ex: return g + [("every algorithm has a table of the best values", z3.Not(opt))]
        d = ex[-1][1].f["of"] if isinstance(ex[-1][1], Obj) and ex[-1][1].cls == "Frame" else None
        full = d.upto == vc.NP if d is not None and getattr(d, "new", None) == [] else False
        return g + [("the table of the algorithm is exported once, at the end", len(ex) == 1), ("it has the best values of every problem", full), ("it is exported in the given format", ex[-1][0] == vc.fmt),
                    ("it is exported under the name of the algorithm", term(ex[-1][2]) == z3.Concat(vc.path, z3.StringVal("/best_fit/"), ANAME(i), z3.StringVal("_best_fit")) if isz(ex[-1][2]) else False)]
    def h_algorithms(self, vc, env, modified):
        vc.ghost.f["runs"] = vc.new("searches before", I); vc.ghost.f["last"] = Opaque("last")
    # ---- one problem
    def problems(self, vc, env, k, n, entry):
        g = [("it is over the problems", n == vc.NP)]
        if entry:
            es = empties(env)
            if len(es) != 1: raise Unsupported("the tables of the loop")
            self.tab = es[0]; vc.nexp = len(vc.exports); vc.inproblems = True
            return g
        if self.head: self.head = False; vc.prob = k; env[self.tab].upto = k; return g
        d = env[self.tab]; new = getattr(d, "new", [])
        if not isinstance(new, list): raise Unsupported("the tables of the loop")
        j, ex = vc.prob, vc.exports[vc.nexp:]
        g.append(("each problem gets one column, under its name", new[0][0] == j if len(new) == 1 else False))
        if len(new) == 1:
            l = new[0][1]
            g.append(("the column has the fitness of each trial of the pair", z3.And(term(l.n) == vc.T, forall(vc.T, lambda c: real(l.get(c)) == FIT(vc.base + c))) if isinstance(l, PList) else False))
        if not ex: return g + [("the convergence is exported where that is wanted", z3.Not(vc.save))]
        f = ex[-1][1]; t = f.f["of"] if isinstance(f, Obj) and f.cls == "Frame" else None
        ok = t is not None and hasattr(t, "runs")
        g += [("the convergence is exported once, and only where that is wanted", z3.And(z3.BoolVal(len(ex) == 1), vc.save)), ("it is exported in the given format", ex[-1][0] == vc.fmt),
              ("it is exported under the names of the algorithm and the problem", term(ex[-1][2]) == z3.Concat(vc.path, z3.StringVal("/convergence/"), ANAME(vc.alg), z3.StringVal("/"), NAME(j), z3.StringVal("_convergence")) if isz(ex[-1][2]) else False),
              ("it has the convergence of each trial", forall(vc.T, lambda c: z3.And(t.has[c + 1], t.runs[c + 1] == vc.base + c)) if ok else False), ("the columns are filled up to the same length", forall(vc.T, lambda c: t.pad[c + 1]) if ok else False)]
        return g
    def h_problems(self, vc, env, modified):
        d = env[self.tab]
        vc.base = vc.new("searches before", I); vc.ghost.f["runs"] = vc.base; vc.ghost.f["last"] = Opaque("last"); vc.parallel = False; vc.padding = False
        new = PDict(); new.new = []; env[self.tab] = new
        vc.exports = vc.exports[:vc.nexp]
        self.d = new
    # ---- one trial
    def trials(self, vc, env, k, n, entry):
        g = [("one search per trial", n == vc.T)]
        if entry:
            ds = empties(env); ls = [x for x, v in env.items() if isinstance(v, PList) and v.kind == "list" and v.items == []]
            if len(ds) != 1 or len(ls) != 1: raise Unsupported("the tables of the loop")
            self.col, self.lst = ds[0], ls[0]; vc.base_ = vc.base
            return g
        d, l = env[self.col], env[self.lst]
        if not vc.parallel: g.append(("each search is counted", term(vc.ghost.f["runs"]) == vc.base + k))
        g.append(("the fitness of the trials so far", z3.And(term(l.n) == k, forall(k, lambda c: real(l.get(c)) == FIT(vc.base + c)))))
        g.append(("the convergence of the trials so far", forall(k, lambda c: z3.And(d.has[c + 1], d.runs[c + 1] == vc.base + c))))
        d.done = k
        if self.head:
            self.head = False; vc.logged = len(vc.log); self.k = k
            for x in self.result: env[x] = PDict([("problem_name", NAME(vc.prob))]); env[x].default = lambda vc, i: Opaque("value")
            return g
        for x, v in env.items():
            if isinstance(v, PDict) and any(y == "problem_name" for y, _ in v.items):
                self.result.add(x)
        for x in self.result:
            v = dict(env[x].items).get("problem_name") if isinstance(env.get(x), PDict) else None
            g.append(("the record names the problem", v == NAME(vc.prob) if isz(v) else False))
        ok = len(vc.log) == vc.logged + 1
        g.append(("exactly one search", ok))
        if ok:
            o, a = vc.log[-1]
            t, m = a.get("termination"), a.get("mode", "single")
            g += [("the search is by the algorithm", o.t == vc.alg), ("the search is for the problem", a["problem"].t == vc.prob if isinstance(a.get("problem"), SymObj) else False),
                  ("the search has the termination of the pair", (t is None) if not vc.terms else (t.t == TERM(vc.alg, vc.prob) if isinstance(t, Opaque) and t.t is not None else False)),
                  ("the search has the mode of the pair", term(m) == (MODE(vc.alg, vc.prob) if vc.modes else z3.StringVal("single")) if isz(m) or isinstance(m, str) else False),
                  ("the search has the given number of workers", a.get("n_workers") is vc.workers0), ("no seed and no starting solutions", a.get("seed") is None and a.get("starting_solutions") is None)]
        return g
    def h_trials(self, vc, env, modified):
        if not vc.parallel: vc.ghost.f["runs"] = vc.new("runs", I)
        vc.ghost.f["last"] = Opaque("last")
        d = PDict(); d.runs, d.has, d.pad, d.padlen, d.done = vc.new("runs", z3.ArraySort(I, I)), vc.new("has", z3.ArraySort(I, B)), z3.K(I, z3.BoolVal(False)), None, None
        env[self.col] = d
        l = env[self.lst]; f = vc.newfun("fitness", I, R); n = vc.new("fitness.len", I); vc.assume(n >= 0)
        l.items, l._n, l._get = None, n, lambda i: f(term(i))
        vc.padding = True
    # ---- one column to fill up
    def the(self, env):
        ds = {id(v): v for v in env.values() if isinstance(v, PDict) and hasattr(v, "runs")}
        if len(ds) != 1: raise Unsupported("the tables of the loop")
        return list(ds.values())[0]
    def h_padding(self, vc, env, modified):
        d = self.the(env)
        d.pad = vc.new("pad", z3.ArraySort(I, B))
    def padding(self, vc, env, k, n, entry):
        d = self.the(env)
        if entry:       # the length of the longest
            d.padlen, w = vc.new("longest", I), vc.new("longest.trial", I)
            vc.assume(z3.And(0 <= w, w < vc.T, d.padlen == CLEN(d.runs[w + 1]), forall(vc.T, lambda c: CLEN(d.runs[c + 1]) <= d.padlen)))
            return [("it is over the trials", n == vc.T)]
        self.head = False
        return [("it is over the trials", n == vc.T), ("the columns so far are filled up", forall(k, lambda c: d.pad[c + 1]))]


class Execute(Contract):
    target, props, make, proof_only, uses = M_ + "execute", ("C18",), TasksVC, True, ()
    def __init__(self): super().__init__(); self.loops = {k: Loop() for k in range(5)}
    def args(self, vc):
        vc.path, vc.save, vc.workers0 = z3.String("save_path"), z3.Bool("save_convergence"), Opaque("n_workers")
        vc.terms, vc.modes = bool(vc.choice(2)), bool(vc.choice(2))
        vc.fmt = ("csv", "json", "dataframe")[vc.choice(3)] if vc.terms and vc.modes else "csv"
        table = lambda f: PList("list", n=vc.NA, get=lambda i: PList("list", n=vc.NP, get=lambda j: f(term(i), term(j))))
        o = Obj(vc.repo.cls("mealpy.multitask.Multitask"), n_algorithms=vc.NA, m_problems=vc.NP, n_workers=vc.workers0, validator=Obj(vc.repo.cls("mealpy.utils.validator.Validator")),
                algorithms=PList("list", n=vc.NA, get=lambda i: SymObj(term(i), "TaskOpt")), problems=PList("list", n=vc.NP, get=lambda j: SymObj(term(j), "TaskProblem")),
                terminations=table(lambda i, j: Opaque("termination", TERM(i, j))) if vc.terms else None, modes=table(MODE) if vc.modes else None)
        j = None
        if vc.choice(2): j = z3.Int("n_jobs"); vc.pc.append(z3.Or(j < 1, z3.And(2 <= j, j <= 61, j <= z3.Int("cpus") - 1)))
        return {"self": o, "n_trials": vc.T, "n_jobs": j, "save_path": vc.path, "save_as": vc.fmt, "save_convergence": vc.save, "verbose": z3.Bool("verbose")}
    def ensures(self, vc, a, old, r): return [("the tables of every algorithm are done", vc.alg is not None)]


class ExportVC(RunVC):
    def ext_hook(self, name, self_, args, kw, node):
        if name.startswith("Table."): self.log.append((name[6:], self_, args, kw)); return None
        return super().ext_hook(name, self_, args, kw, node)
class ExportCsv(Contract):
    """the table is written once, whole, under the given path"""
    target, props, make, proof_only, uses = M_ + "export_to_csv", ("C18",), ExportVC, True, ()
    call, end, options = "to_csv", ".csv", {"index": False}
    def args(self, vc): return {"result": Obj("Table"), "save_path": z3.String("save_path")}
    def ensures(self, vc, a, old, r):
        ok = len(vc.log) == 1 and vc.log[0][0] == self.call and vc.log[0][1] is a["result"] and vc.log[0][2]
        if not ok: return [("the table is written once", False)]
        kw = vc.log[0][3]
        return [("it is written under the given path", term(vc.log[0][2][0]) == z3.Concat(a["save_path"], z3.StringVal(self.end))), ("it is written whole", all(k in kw and kw[k] == v for k, v in self.options.items()) and set(kw) <= {"index", "header"} and kw.get("header", True) is True)]
class ExportJson(ExportCsv): target, call, end, options = M_ + "export_to_json", "to_json", ".json", {}
class ExportDataframe(ExportCsv): target, call, end, options = M_ + "export_to_dataframe", "to_pickle", ".pkl", {}


CONTRACTS = [Execute, ExportCsv, ExportJson, ExportDataframe]
