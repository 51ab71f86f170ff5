"""C24: saving and loading; C17, C18: one run of the tuner and of the multitask utility.  The optimizer is a record that notes what it is asked to do."""
from pydv.corelib import *
from pydv.pv import Dyn, Obj, PList, Opaque, VC, Func
ASSUME = ["the optimizer is a stub whose solve returns an arbitrary agent and history",
          "pickle.load of what pickle.dump wrote gives an equal object; the file system keeps what was written under a path",
          "pandas groups, means and sorts as documented (aggregation is decided by the bounded part)"]
S_ = z3.StringSort()


class FileVC(CoreVC):
    def start(self): super().start(); self.log = []
    def b_open(self, a, kw):
        mode = kw.get("mode", a[1] if len(a) > 1 else "r")
        return Obj("File", path=self.force(a[0]), mode=mode)
    def x_pickle_dump(self, o, a, kw):
        f = a[1] if len(a) > 1 else kw.get("file"); self.log.append(("dump", a[0], f)); return None
    def x_pickle_load(self, o, a, kw):
        r = Opaque("loaded"); self.log.append(("load", r, a[0])); return r
    def x_File_close(self, o, a, kw): return None
    def x_File___enter__(self, o, a, kw): return o
    def x_File___exit__(self, o, a, kw): return None


def place(p):
    """the file that belongs to a path"""
    if p is None: return z3.StringVal("model.pkl")
    return z3.If(z3.SuffixOf(z3.StringVal(".pkl"), p), p, z3.Concat(p, z3.StringVal(".pkl")))


class Save(Contract):
    target, props, make, proof_only, uses = "mealpy.utils.io.save_model", ("C24",), FileVC, True, ()
    what, mode, arg = "dump", "wb", "path_save"
    def args(self, vc): return {"model": Opaque("model"), "path_save": None if vc.choice(2) else z3.String("path")}
    def ensures(self, vc, a, old, r):
        ok = len(vc.log) == 1 and vc.log[0][0] == self.what and isinstance(vc.log[0][2], Obj) and vc.log[0][2].cls == "File"
        if not ok: return [(f"exactly one {self.what}", False)]
        f = vc.log[0][2]
        return [("the file of the path is used", term(f.f["path"]) == place(a[self.arg])), ("the file is opened for it", z3.BoolVal(f.f["mode"] == self.mode))] + self.more(vc, a, r)
    def more(self, vc, a, r): return [("the model itself is saved", vc.log[0][1] is a["model"])]
class Load(Save):
    target, what, mode, arg = "mealpy.utils.io.load_model", "load", "rb", "path_load"
    def args(self, vc): return {"path_load": None if vc.choice(2) else z3.String("path")}
    def more(self, vc, a, r): return [("what was loaded is returned", r is vc.log[0][1])]


SOLVE = ("problem", "mode", "n_workers", "termination", "starting_solutions", "seed")
class RunVC(CoreVC):
    def start(self): super().start(); self.log = []
    def given(self, name, args, kw):
        fn = self.repo.method(self.repo.cls("mealpy.optimizer.Optimizer"), name)
        d = dict(zip([x.arg for x in fn.node.args.args][1:], args)); d.update(kw); return d
    def x_Opt_solve(self, o, a, kw):
        best = Obj("Best", target=Obj("BestTarget", fitness=z3.Real("best.fitness"), objectives=Opaque("objectives")), solution=Opaque("solution"))
        o.f["history"] = Obj("Hist", list_global_best_fit=Opaque("convergence")); o.f["problem"] = Obj("Prob"); o.f["g_best"] = best
        self.log.append(("solve", self.given("solve", a, kw), best, o)); return best
    def x_Opt_set_parameters(self, o, a, kw): self.log.append(("set", self.given("set_parameters", a, kw), None, o)); return None
    def x_Opt_get_name(self, o, a, kw): return Opaque("name of the optimizer")
    def x_Prob_get_name(self, o, a, kw): return z3.String("name of the problem")


def solved(vc, opt, want, r, k=0):
    """the goal that the k-th thing asked for is the wanted search, by this optimizer"""
    if len(vc.log) <= k or vc.log[k][0] != "solve" or vc.log[k][3] is not opt: return [("the search is run", False)]
    d = vc.log[k][1]
    g = []
    for x, v in want.items():
        w = d.get(x); w = w if w is v else vc.force(w) if w is not None else w
        eq = w is v or isz(w) and isz(v) and z3.eq(w, v)
        g.append((f"the search gets the given {x}", z3.BoolVal(bool(eq))))
    return g + [("exactly one search", sum(x[0] == "solve" for x in vc.log) == 1)]


class TaskRun(Contract):
    target, props, make, proof_only, uses = "mealpy.multitask.Multitask.__run__", ("C18",), RunVC, True, ()
    def args(self, vc):
        o = Obj(vc.repo.cls("mealpy.multitask.Multitask"), n_workers=Opaque("n_workers"))
        return {"self": o, "id_trial": z3.Int("id_trial"), "optimizer": Obj("Opt"), "problem": Opaque("problem"), "termination": Opaque("termination"), "mode": z3.String("mode")}
    def ensures(self, vc, a, old, r):
        g = solved(vc, a["optimizer"], dict(problem=a["problem"], mode=a["mode"], termination=a["termination"], n_workers=a["self"].f["n_workers"]), r)
        if not isinstance(r, PDict): return g + [("a record", False)]
        d = dict(r.items)
        fit = vc.log[0][2].f["target"].f["fitness"] if vc.log else None
        return g + [("the record has the trial, the fitness, the convergence and the problem's name of that run", z3.And(z3.BoolVal(set(d) == {"id_trial", "best_fitness", "convergence", "problem_name"} and d["convergence"] is a["optimizer"].f["history"].f["list_global_best_fit"]), term(d["id_trial"]) == a["id_trial"], term(d["best_fitness"]) == fit, term(d["problem_name"]) == z3.String("name of the problem")) if set(d) >= {"id_trial", "best_fitness", "convergence", "problem_name"} else False)]
from pydv.pv import PDict


class TunerRun(Contract):
    target, props, make, proof_only, uses = "mealpy.tuner.Tuner.__run__", ("C17",), RunVC, True, ()
    def tuner(self, vc): return Obj(vc.repo.cls("mealpy.tuner.Tuner"), algorithm=Obj("Opt"), problem=Opaque("problem"), _best_params=Opaque("best parameters"), _best_row=Opaque("row"), _best_score=Opaque("score"))
    def args(self, vc): return {"self": self.tuner(vc), "id_trial": z3.Int("id_trial"), "mode": z3.String("mode"), "n_workers": Opaque("n_workers"), "termination": Opaque("termination")}
    def snapshot(self, vc, a): return dict(super().snapshot(vc, a), problem=a["self"].f["problem"])
    def ensures(self, vc, a, old, r):
        o = a["self"].f["algorithm"]
        g = solved(vc, o, dict(problem=old["problem"], mode=a["mode"], termination=a["termination"], n_workers=a["n_workers"]), r)
        ok = isinstance(r, PList) and r.items is not None and len(r.items) == 3 and vc.log and r.items[1] is vc.log[0][2] and r.items[2] is o.f["history"].f["list_global_best_fit"]
        return g + [("the trial, the best agent and the convergence of that run", z3.And(z3.BoolVal(bool(ok)), term(r.items[0]) == a["id_trial"]) if ok else False)]


class Resolve(TunerRun):
    target = "mealpy.tuner.Tuner.resolve"
    def args(self, vc): return {"self": self.tuner(vc), "mode": z3.String("mode"), "starting_solutions": Opaque("starting"), "n_workers": Opaque("n_workers"), "termination": Opaque("termination")}
    def ensures(self, vc, a, old, r):
        o = a["self"].f["algorithm"]
        ok = len(vc.log) == 2 and vc.log[0][0] == "set" and vc.log[0][3] is o and vc.log[0][1].get("parameters") is a["self"].f["_best_params"]
        return [("the best parameters are set first", ok)] + solved(vc, o, dict(problem=old["problem"], mode=a["mode"], termination=a["termination"], n_workers=a["n_workers"], starting_solutions=a["starting_solutions"]), r, 1) + [("its best agent is returned", bool(vc.log) and r is vc.log[-1][2])]


class BestAlgorithm(TunerRun):
    target = "mealpy.tuner.Tuner.best_algorithm"
    def args(self, vc): return {"self": self.tuner(vc)}
    def ensures(self, vc, a, old, r):
        o = a["self"].f["algorithm"]
        return [("the algorithm, with the best parameters", len(vc.log) == 1 and vc.log[0][0] == "set" and vc.log[0][3] is o and vc.log[0][1].get("parameters") is a["self"].f["_best_params"] and r is o)]


class BestParams(TunerRun):
    target, field = "mealpy.tuner.Tuner.best_params", "_best_params"
    def args(self, vc): return {"self": self.tuner(vc)}
    def ensures(self, vc, a, old, r): return [("the stored one", r is a["self"].f[self.field])]
class BestRow(BestParams): target, field = "mealpy.tuner.Tuner.best_row", "_best_row"
class BestScore(BestParams): target, field = "mealpy.tuner.Tuner.best_score", "_best_score"


CONTRACTS = [Save, Load, TaskRun, TunerRun, Resolve, BestAlgorithm, BestParams, BestRow, BestScore]
