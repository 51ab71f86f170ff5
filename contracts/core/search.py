"""The search loop: recording of the best (C03, C21), the history (C04), stopping (C05)."""
from pydv.corelib import *
from pydv import corelib
ASSUME = ["time does not run backwards; evolve and the hooks change only what the frame analysis allows them to",
          "logging has no effect on the search"]
O, H, T = "mealpy.optimizer.Optimizer.", "mealpy.utils.history.History.", "mealpy.utils.termination.Termination."


def own(vc, o, alloc):
    """the agent and its parts are new"""
    s, t = vc.getf(o, "solution"), vc.getf(o, "target")
    return z3.And(o.t >= alloc, s.t >= alloc, t.t >= alloc, o.t < vc.alloc, s.t < vc.alloc, t.t < vc.alloc)
def same_prefix(new, old, n=None):
    n = term(old.n) if n is None else n
    if old.items == []: return z3.BoolVal(True)
    if new.items == []: return term(n) == 0
    g = lambda l, i: l.get(i).t if isinstance(l.get(i), SymObj) else l.get(i)
    return forall(n, lambda i: g(new, i) == g(old, i))


class StoreInitial(Contract):
    target, props = H + "store_initial_best_worst", ("C03", "C04", "C21")
    def args(self, vc): return {"self": history(vc, "h"), "best_agent": vc.agent("best"), "worst_agent": vc.agent("worst")}
    def havoc(self, vc, a):
        vc.havoc_new(vc.alloc)
        for l in AG_LISTS: a["self"].f[l] = PList("list", [SymObj(vc.new(l, I), "Agent")])
    def result(self, vc, a): return None
    def ensures(self, vc, a, old, ret):
        h = a["self"].f
        g = [("nothing is modified", vc.unchanged(old))]
        for l, w in zip(AG_LISTS, ("best_agent", "best_agent", "worst_agent", "worst_agent")):
            if not isinstance(h[l], PList): return [(f"{l} is a list", False)]
            g.append((f"{l} holds one agent", term(h[l].n) == 1))
            x = h[l].get(0)
            g.append((f"{l} holds a copy of the {w.split('_')[0]} agent", z3.And(vc.fit(x) == vc.fit(a[w], old["maps"]), vc.con(x) == vc.con(a[w], old["maps"]), own(vc, x, old["alloc"]))))
        return g


class Repeated(Contract):
    """the number of consecutive last steps in which the best fitness changed by at most epsilon"""
    target, props = H + "get_global_repeated_times", ("C05",)
    def args(self, vc): return {"self": history(vc, "h"), "epsilon": z3.Real("epsilon")}
    def result(self, vc, a): return vc.new("repeated", I)
    @staticmethod
    def run(vc, lst, eps, c, m):
        """c is the length of the last run of small steps among the first m steps"""
        d = lambda j: vc.fit(lst.get(j)) - vc.fit(lst.get(j + 1))
        small = lambda j: z3.And(d(j) <= eps, d(j) >= -eps)
        c, m = term(c), term(m)
        return z3.And(0 <= c, z3.Or(c <= m, c == 0), z3.ForAll([i_], z3.Implies(z3.And(m - c <= i_, i_ < m), small(i_))), z3.Or(c >= m, z3.Not(small(m - c - 1))))
    def ensures(self, vc, a, old, r):
        l = a["self"].f["list_global_best"]
        m = z3.If(term(l.n) >= 1, term(l.n) - 1, z3.IntVal(0))
        return [("counts the last consecutive epochs without a change", Repeated.run(vc, l, real(a["epsilon"]), intt(r), m)), ("nothing is modified", vc.unchanged(old))]
    loops = {0: Inv(lambda vc, env, k, n: [("count is the length of the last run of small steps", Repeated.run(vc, env["self"].f["list_global_best"], real(env["epsilon"]), intt(env["count"]), k))])}


def termination(vc, me=None):
    """a Termination; each limit set or not"""
    t = Obj(vc.repo.cls("mealpy.utils.termination.Termination"))
    if me is not None: t.f.update(max_epoch=me, max_fe=None, max_time=None, max_early_stop=None, epsilon=z3.Real("epsilon"), start_time=z3.Real("start_time"), message=""); return t      # (used by contract only)
    for l, so in (("max_epoch", I), ("max_fe", I), ("max_time", R), ("max_early_stop", I)): t.f[l] = None if vc.choice(2) else z3.Const("limit." + l, so)
    t.f.update(epsilon=z3.Real("epsilon"), start_time=z3.Real("start_time"), start_epoch=0, start_fe=0, start_threshold=0, message="", name="Termination", logger=Obj("Logger"))
    return t
def stop(t, epoch, fe, now, es):
    f = t.f
    c = [z3.BoolVal(False)]
    if f["max_epoch"] is not None: c.append(term(epoch) >= f["max_epoch"])
    if f["max_fe"] is not None: c.append(term(fe) >= f["max_fe"])
    if f["max_time"] is not None: c.append(real(now) - real(f["start_time"]) >= f["max_time"])
    if f["max_early_stop"] is not None: c.append(term(es) >= f["max_early_stop"])
    return z3.Or(c)


class ShouldStop(Contract):
    target, props = T + "should_terminate", ("C05",)
    def args(self, vc): return {"self": termination(vc), "current_epoch": z3.Int("epoch"), "current_fe": z3.Int("fe"), "current_time": z3.Real("now"), "current_threshold": z3.Int("es")}
    def result(self, vc, a): return vc.new("stop", B)
    def ensures(self, vc, a, old, r):
        return [("true exactly when a limit that is set is reached", (r if isz(r) else z3.BoolVal(r is True)) == stop(a["self"], a["current_epoch"], a["current_fe"], a["current_time"], a["current_threshold"])),
                ("the limits stay as they are", all(a["self"].f[l] is old["limits"][l] for l in old["limits"]))]
    def snapshot(self, vc, a): return dict(maps=dict(vc.maps), alloc=vc.alloc, limits={l: a["self"].f[l] for l in ("max_epoch", "max_fe", "max_time", "max_early_stop", "epsilon", "start_time")})


class StartValues(Contract):
    target, props = T + "set_start_values", ("C05",)
    def args(self, vc): return {"self": termination(vc), "start_epoch": z3.Int("e0"), "start_fe": z3.Int("f0"), "start_time": z3.Real("t0"), "start_threshold": z3.Int("es0")}
    def snapshot(self, vc, a): return dict(maps=dict(vc.maps), alloc=vc.alloc, limits={l: a["self"].f[l] for l in ("max_epoch", "max_fe", "max_time", "max_early_stop", "epsilon")})
    def result(self, vc, a): return None
    def havoc(self, vc, a): a["self"].f["start_time"] = a["start_time"]
    def ensures(self, vc, a, old, r):
        return [("the elapsed time counts from the given start", z3.BoolVal(a["self"].f["start_time"] is a["start_time"]) if not isz(a["self"].f["start_time"]) else real(a["self"].f["start_time"]) == real(a["start_time"])),
                ("the limits stay as they are", all(a["self"].f[l] is old["limits"][l] for l in old["limits"]))]


class CheckTermination(Contract):
    """mode 'start': the counter starts at 0 and the clock now; mode 'end': the stopping rules on the true epoch, count, time and run"""
    target, props = O + "check_termination", ("C05", "C06")
    tags = (("evaluations are counted from zero", ("C05", "C06")), ("the counter stays", ("C06", "C05")), ("history stays", ("C04",)), ("", ("C05",)))
    def args(self, vc):
        o = optimizer(vc, problem=problem(vc), history=history(vc, "h"))
        if vc.choice(2) == 0:
            k = vc.choice(4)
            t = None if k == 0 else termination(vc) if k == 1 else Opaque("object") if k == 2 else PDict([("max_epoch", z3.Int("limit.max_epoch"))])
            o.f["termination"] = Opaque("stale")
            return {"self": o, "mode": "start", "termination": t, "epoch": None, "$k": k}
        o.f["termination"] = None if vc.choice(2) else termination(vc)
        return {"self": o, "mode": "end", "termination": None, "epoch": z3.Int("epoch")}
    def raises(self, vc, a):
        if a["mode"] == "start" and a.get("$k") == 3: e = a["termination"].items[0][1]; return z3.Or(e < 1, e > 10000000)
        return z3.BoolVal(a["mode"] == "start" and a.get("$k") == 2)
    def snapshot(self, vc, a): return dict(maps=dict(vc.maps), alloc=vc.alloc, term=a["self"].f["termination"], nfe=a["self"].f["nfe_counter"], hist=hsnap(a["self"].f["history"]))
    def havoc_call(self, vc, a):
        o = a["self"]
        if a["mode"] == "start":
            t = a["termination"]
            o.f["termination"] = None if t is None else t if isinstance(t, Obj) else termination(vc)
            if t is not None: o.f["nfe_counter"] = 0
            return None
        g = "$checks_made" in o.f       # ghost record of the checks (contract of solve)
        if g:
            vc.oblige("solve: the stopping rules are checked with the number of the epoch", term(a["epoch"]) == term(o.f["$evolved"]))
            o.f["$checks_made"] = term(o.f["$checks_made"]) + 1
            o.f["$stopped_before"] = z3.Or(o.f["$stopped_before"], o.f["$last"])
        f = z3.BoolVal(False) if o.f["termination"] is None else vc.new("finished", B)
        if g: o.f["$last"] = f
        return f
    def ensures(self, vc, a, old, r):
        o = a["self"].f
        g = [("the history stays as it is", z3.And([z3.And(term(o["history"].f[l].n) == term(x.n), same_prefix(o["history"].f[l], x)) for l, x in old["hist"].items()] + [vc.unchanged(old)]))]
        if a["mode"] == "start":
            t = o["termination"]
            if a["$k"] == 0: return g + [("no termination", t is None), ("the counter stays as it is", term(o["nfe_counter"]) == old["nfe"])]
            ok = isinstance(t, Obj) and t.cls is vc.repo.cls("mealpy.utils.termination.Termination")
            g += [("a Termination is used", ok), ("evaluations are counted from zero", term(o["nfe_counter"]) == 0)]
            if not ok: return g
            if a["$k"] == 1: g.append(("the given one", t is a["termination"]))
            g.append(("the clock starts now", any(isz(t.f["start_time"]) and z3.eq(t.f["start_time"], c) for c in vc.seen_clocks) if hasattr(vc, "seen_clocks") else True))
            return g
        t = old["term"]
        g.append(("the counter stays as it is", term(o["nfe_counter"]) == old["nfe"]))
        rt = r if isz(r) else z3.BoolVal(r is True)
        if t is None: return g + [("nothing stops the search", z3.Not(rt))]
        es = [z3.Int("es")]
        # the run of unchanged epochs, whatever its value
        q = Repeated.run(vc, o["history"].f["list_global_best"], t.f["epsilon"], es[0], z3.If(term(o["history"].f["list_global_best"].n) >= 1, term(o["history"].f["list_global_best"].n) - 1, z3.IntVal(0)))
        now = vc.lastclock
        g.append(("finished exactly when a stopping rule holds", z3.Implies(q, rt == stop(t, a["epoch"], o["nfe_counter"], now, es[0]))))
        return g


class SearchVC(CoreVC):
    def start(self):
        super().start(); self.seen_clocks = []; self.lastclock = z3.Real("noclock")
    def x_time_perf_counter(self, o, a, kw):
        t = self.new("clock", R); self.seen_clocks.append(t); self.lastclock = t
        return t
    x_time_time = x_time_perf_counter
    def x_tqdm_tqdm(self, o, a, kw):
        t = Obj("tqdm"); t.f["it"] = a[0]; return t
    def x_tqdm_set_postfix(self, o, a, kw): return None
    def iterable(self, it):
        if isinstance(it, Obj) and it.cls == "tqdm": it = it.f["it"]
        return super().iterable(it)
CheckTermination.make = SearchVC


class UpdateBest(Contract):
    target, props = O + "update_global_best_agent", ("C03", "C04", "C21")
    tags = (("nothing that existed is modified", ("C21", "C04")), ("earlier records", ("C04", "C21")), ("stays", ("C04", "C21")), ("one record more", ("C04",)), ("no record more", ("C04",)), ("recorded current", ("C04",)), ("recorded worst", ("C04",)), ("worst so far", ("C04",)),
            ("is an agent of its own", ("C21",)), ("are different agents", ("C21",)), ("is not the returned agent", ("C21",)), ("is a new agent", ("C21", "C03")), ("no best remains unsaved", ("C04", "C03")))
    def args(self, vc):
        o = optimizer(vc, problem=problem(vc), history=history(vc, "h"))
        for x in ("unsaved_best", "unsaved_worst"): o.f[x] = None if vc.choice(2) else vc.agent(x)
        return {"self": o, "pop": vc.population("pop"), "save": True if vc.choice(2) else False}
    def requires(self, vc, a):
        h = a["self"].f["history"].f
        return [("a non-empty population", term(a["pop"].n) >= 1), ("the initial best and worst are recorded", z3.And(term(h["list_global_best"].n) >= 1, term(h["list_global_worst"].n) >= 1))]
    def snapshot(self, vc, a):
        o = a["self"].f
        return dict(maps=dict(vc.maps), alloc=vc.alloc, hist=hsnap(o["history"]), ub=o["unsaved_best"], uw=o["unsaved_worst"])
    def havoc(self, vc, a):
        vc.havoc_new(vc.alloc)
        o = a["self"].f
        if a["save"] is True:
            for l in AG_LISTS: vc.append(o["history"].f[l], SymObj(vc.new(l, I), "Agent"))
            o["unsaved_best"] = o["unsaved_worst"] = None
        else: o["unsaved_best"], o["unsaved_worst"] = SymObj(vc.new("unsaved_best", I), "Agent"), SymObj(vc.new("unsaved_worst", I), "Agent")
    def result(self, vc, a):
        p = vc.newfun("sorted", I, I); g = a["pop"]
        return PList("tuple", [PList("list", n=term(g.n), get=lambda i: g.get(p(term(i)))), SymObj(vc.new("g_best", I), "Agent")])
    def ensures(self, vc, a, old, ret):
        o, m0, mm, pop = a["self"].f, old["maps"], a["self"].f["problem"].f["minmax"], a["pop"]
        h, h0 = o["history"].f, old["hist"]
        spop, best = ret.items
        be = lambda x, y: vc.better_eq(mm, x, y)
        fp = lambda i: vc.fit(pop.get(i), m0)
        n0 = {l: term(h0[l].n) for l in HIST}
        def before(u, l):
            rec = vc.fit(h0[l].get(n0[l] - 1), m0)
            return rec if u is None else z3.If(u.t == -1, rec, vc.fit(u, m0))
        best_before, worst_before = before(old["ub"], "list_global_best"), before(old["uw"], "list_global_worst")
        fb = vc.fit(best)
        g = [("nothing that existed is modified", vc.unchanged(old)),
             ("the sorted population is returned", z3.And(term(spop.n) == term(pop.n), forall2(pop.n, lambda i, k: be(vc.fit(spop.get(i), m0), vc.fit(spop.get(k), m0))))),
             ("every agent of the sorted population is a member", forall(pop.n, lambda i: z3.Exists([k_], z3.And(0 <= k_, k_ < pop.n, spop.get(i).t == pop.get(k_).t)))),
             ("the returned best is not worse than any member", forall(pop.n, lambda i: be(fb, fp(i)))),
             ("the returned best is not worse than the best before", be(fb, best_before)),
             ("the returned best is a member or the best before", z3.Or(fb == best_before, z3.Exists([i_], z3.And(0 <= i_, i_ < pop.n, fb == fp(i_))))),
             ("the returned best is a new agent", own(vc, best, old["alloc"]))]
        for l in AG_LISTS: g.append((f"the earlier records of {l} stay", same_prefix(h[l], h0[l])))
        for l in NUM_LISTS + OTHER_LISTS: g.append((f"{l} stays", z3.And(term(h[l].n) == n0[l], same_prefix(h[l], h0[l]))))
        if a["save"] is True:
            last = {l: h[l].get(n0[l]) for l in AG_LISTS}
            for l in AG_LISTS: g.append((f"one record more in {l}", term(h[l].n) == n0[l] + 1))
            g += [("the recorded best has the fitness and position of the returned one", z3.And(vc.fit(last["list_global_best"]) == fb, vc.con(last["list_global_best"]) == vc.con(best))),
                  ("the recorded current best is the best member", z3.And(forall(pop.n, lambda i: be(vc.fit(last["list_current_best"]), fp(i))), z3.Exists([i_], z3.And(0 <= i_, i_ < pop.n, vc.fit(last["list_current_best"]) == fp(i_), vc.con(last["list_current_best"]) == vc.con(pop.get(i_), m0))))),
                  ("the recorded current worst is the worst member", z3.And(forall(pop.n, lambda i: be(fp(i), vc.fit(last["list_current_worst"]))), z3.Exists([i_], z3.And(0 <= i_, i_ < pop.n, vc.fit(last["list_current_worst"]) == fp(i_), vc.con(last["list_current_worst"]) == vc.con(pop.get(i_), m0))))),
                  ("the recorded worst is not better than any member or the worst before", z3.And(forall(pop.n, lambda i: be(fp(i), vc.fit(last["list_global_worst"]))), be(worst_before, vc.fit(last["list_global_worst"])))),
                  ("no best remains unsaved", o["unsaved_best"] is None and o["unsaved_worst"] is None)]
            for l in AG_LISTS:
                g.append((f"the record in {l} is an agent of its own", own(vc, last[l], old["alloc"])))
                for l2 in AG_LISTS:
                    if l < l2: g.append((f"the records in {l} and {l2} are different agents", last[l].t != last[l2].t))
                g.append((f"the record in {l} is not the returned agent", z3.And(last[l].t != best.t, vc.getf(last[l], "solution").t != vc.getf(best, "solution").t, vc.getf(last[l], "target").t != vc.getf(best, "target").t)))
        else:
            for l in AG_LISTS: g.append((f"no record more in {l}", term(h[l].n) == n0[l]))
            u, w = o["unsaved_best"], o["unsaved_worst"]
            if not isinstance(u, SymObj) or not isinstance(w, SymObj): return g + [("the best so far is kept for the next record", False)]
            g += [("the best so far is kept for the next record", z3.And(vc.fit(u) == fb, own(vc, u, old["alloc"]), u.t != best.t, vc.getf(u, "solution").t != vc.getf(best, "solution").t)),
                  ("the worst so far is kept for the next record", z3.And(forall(pop.n, lambda i: be(fp(i), vc.fit(w))), be(worst_before, vc.fit(w)), own(vc, w, old["alloc"])))]
        return g


class TrackStep(Contract):
    target, props = O + "track_optimize_step", ("C04", "C21", "C03")
    tags = (("the counter stays", ("C06",)), ("nothing that existed is modified", ("C21", "C04")), ("saved population", ("C04", "C21")), ("a population more", ("C04",)), ("stays", ("C04", "C21")), ("one entry more", ("C04",)), ("runtime", ("C04",)), ("current fitness", ("C04", "C21")), ("recorded best fitness", ("C03", "C04", "C21")), ("earlier entries", ("C04",)), ("recorded diversity", ("C04",)))
    def args(self, vc):
        o = optimizer(vc, problem=problem(vc), history=history(vc, "h"))
        return {"self": o, "pop": vc.population("pop"), "epoch": z3.Int("epoch"), "runtime": z3.Real("runtime")}
    def requires(self, vc, a):
        h = a["self"].f["history"].f
        return [("a best is recorded", z3.And(term(h["list_global_best"].n) >= 1, term(h["list_current_best"].n) >= 1))]
    def snapshot(self, vc, a): return dict(maps=dict(vc.maps), alloc=vc.alloc, hist=hsnap(a["self"].f["history"]), nfe=a["self"].f["nfe_counter"])
    def havoc(self, vc, a):
        vc.havoc_new(vc.alloc)
        h = a["self"].f["history"].f
        for l in NUM_LISTS: vc.append(h[l], vc.new(l, R))
        l = h["list_population"]; n = term(l.n); m = vc.new("n_pops", I)
        vc.assume(m == z3.If(term(a["self"].f["problem"].f["save_population"]), n + 1, n))
        h["list_population"] = PList("list", n=m, get=l.get)
    def result(self, vc, a): return None
    def ensures(self, vc, a, old, ret):
        o, h, h0 = a["self"].f, a["self"].f["history"].f, old["hist"]
        n0 = {l: term(h0[l].n) for l in HIST}
        g = [("nothing that existed is modified", vc.unchanged(old)), ("the counter stays as it is", term(o["nfe_counter"]) == old["nfe"])]
        for l in AG_LISTS: g.append((f"{l} stays", z3.And(term(h[l].n) == n0[l], same_prefix(h[l], h0[l]))))
        for l in NUM_LISTS:
            g.append((f"one entry more in {l}", term(h[l].n) == n0[l] + 1))
            g.append((f"the earlier entries of {l} stay", same_prefix(h[l], h0[l])))
        d = h["list_diversity"].get(n0["list_diversity"])
        if not isz(d): raise Unsupported("the recorded diversity")
        g.append(("the recorded diversity is not negative", d >= 0))
        g += [("the recorded best fitness is that of the recorded best", h["list_global_best_fit"].get(n0["list_global_best_fit"]) == vc.fit(h0["list_global_best"].get(n0["list_global_best"] - 1), old["maps"])),
              ("the recorded current fitness is that of the recorded current best", h["list_current_best_fit"].get(n0["list_current_best_fit"]) == vc.fit(h0["list_current_best"].get(n0["list_current_best"] - 1), old["maps"])),
              ("the runtime is recorded", h["list_epoch_time"].get(n0["list_epoch_time"]) == real(a["runtime"])),
              ("a population more exactly when saving was requested", term(h["list_population"].n) == z3.If(term(o["problem"].f["save_population"]), n0["list_population"] + 1, n0["list_population"]))]
        tail = getattr(h["list_population"], "tail", None)
        if tail:
            p = tail[-1]
            g.append(("the saved population is a copy of the population", isinstance(p, PList) and z3.And(term(p.n) == term(a["pop"].n),
                      forall(p.n, lambda i: z3.And(own(vc, p.get(i), old["alloc"]), vc.fit(p.get(i)) == vc.fit(a["pop"].get(i), old["maps"]), vc.con(p.get(i)) == vc.con(a["pop"].get(i), old["maps"]))))))
        return g


class TrackProcess(Contract):
    target, props = O + "track_optimize_process", ("C04", "C03")
    tags = (("nothing that existed", ("C04", "C21")), ("exploration", ("C04",)), ("executed epochs", ("C04",)), ("list_population stays", ("C04",)), ("list_current", ("C04",)), ("worst", ("C04",)))
    def args(self, vc): return {"self": optimizer(vc, problem=problem(vc), history=history(vc, "h"))}
    def requires(self, vc, a):
        h = a["self"].f["history"].f
        return [("an epoch was executed", term(h["list_diversity"].n) >= 1), ("no recorded diversity is negative", positive(h["list_diversity"]))] + [(f"{l} starts with the initial record", term(h[l].n) >= 1) for l in AG_LISTS]
    def snapshot(self, vc, a): return dict(maps=dict(vc.maps), alloc=vc.alloc, hist=hsnap(a["self"].f["history"]), nfe=a["self"].f["nfe_counter"])
    def havoc(self, vc, a):
        h = a["self"].f["history"].f
        n = term(h["list_diversity"].n)
        h["epoch"] = n
        for l in ("list_exploration", "list_exploitation"): f = vc.newfun(l, I, R); h[l] = PList("array", n=n, get=lambda i, f=f: f(term(i)))
        for l in AG_LISTS: o = copylist(h[l]); h[l] = PList("list", n=term(o.n) - 1, get=lambda i, o=o: o.get(term(i) + 1))
    def result(self, vc, a): return None
    def ensures(self, vc, a, old, ret):
        h, h0 = a["self"].f["history"].f, old["hist"]
        n = term(h0["list_diversity"].n)
        x, y = h["list_exploration"], h["list_exploitation"]
        g = [("the number of executed epochs is reported", term(h["epoch"]) == n), ("nothing that existed is modified", vc.unchanged(old)),
             ("one exploration and exploitation value per epoch", z3.And(term(x.n) == n, term(y.n) == n)),
             ("exploration plus exploitation is 100", forall(n, lambda i: real(x.get(i)) + real(y.get(i)) == 100)),
             ("exploration is between 0 and 100", percent(x)),
             ("exploration is 100 where the diversity is largest (0 everywhere when there is none)", forall(n, lambda i: z3.Implies(z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < n), h0["list_diversity"].get(i) >= h0["list_diversity"].get(k_))), z3.Or(real(x.get(i)) == 100, z3.And(real(x.get(i)) == 0, h0["list_diversity"].get(i) == 0)))))]
        for l in AG_LISTS: g.append((f"the initial record is dropped from {l}", z3.And(term(h[l].n) == term(h0[l].n) - 1, forall(term(h0[l].n) - 1, lambda i: h[l].get(i).t == h0[l].get(i + 1).t))))
        for l in NUM_LISTS + ("list_population",): g.append((f"{l} stays", z3.And(term(h[l].n) == term(h0[l].n), same_prefix(h[l], h0[l]))))
        return g


class AfterInit(Contract):
    target, props = O + "after_initialization", ("C03", "C20")
    tags = (("the counter stays", ("C06",)), ("keeps its order", ("C20",)), ("nothing that existed", ("C20", "C21")), ("every member is one", ("C20", "C03")), ("keeps its size", ("C20", "C03")), ("of its own", ("C21",)), ("current", ("C04",)), ("worst", ("C04",)), ("stays", ("C04",)), ("list_global_best holds the best", ("C03",)))
    def args(self, vc):
        return {"self": optimizer(vc, problem=problem(vc), history=history(vc, "h"), pop=vc.population("pop"))}
    def requires(self, vc, a): return [("a non-empty population", term(a["self"].f["pop"].n) >= 1)]
    def snapshot(self, vc, a): return dict(maps=dict(vc.maps), alloc=vc.alloc, pop=a["self"].f["pop"], hist=hsnap(a["self"].f["history"]), nfe=a["self"].f["nfe_counter"])
    def havoc(self, vc, a):
        vc.havoc_new(vc.alloc)
        o = a["self"].f
        g = o["pop"]; p = vc.newfun("sorted", I, I)
        o["pop"] = PList("list", n=term(g.n), get=lambda i: g.get(p(term(i))))
        for l in AG_LISTS: o["history"].f[l] = PList("list", [SymObj(vc.new(l, I), "Agent")])
        o["g_best"], o["g_worst"] = SymObj(vc.new("g_best", I), "Agent"), SymObj(vc.new("g_worst", I), "Agent")
    def result(self, vc, a): return None
    def ensures(self, vc, a, old, ret):
        o, m0 = a["self"].f, old["maps"]
        h, pop0, pop, mm = o["history"].f, old["pop"], o["pop"], o["problem"].f["minmax"]
        n = term(pop0.n)
        g = [("nothing that existed is modified", vc.unchanged(old)), ("the population keeps its size", term(pop.n) == n),
             ("without sorting the population keeps its order", z3.Or(term(o["sort_flag"]), forall(n, lambda i: pop.get(i).t == pop0.get(i).t))),
             ("every member is one of the population", forall(n, lambda i: z3.Exists([k_], z3.And(0 <= k_, k_ < n, pop.get(i).t == pop0.get(k_).t)))),
             ("the counter stays as it is", term(o["nfe_counter"]) == old["nfe"])]
        for l in AG_LISTS:
            x = h[l].get(0); w = "worst" in l
            g.append((f"{l} holds one agent of its own", z3.And(term(h[l].n) == 1, own(vc, x, old["alloc"]), x.t != o["g_best"].t, vc.getf(x, "target").t != vc.getf(o["g_best"], "target").t)))
            g.append((f"{l} holds the {'worst' if w else 'best'} of the initial population", forall(n, lambda i: vc.better_eq(mm, vc.fit(pop0.get(i), m0), vc.fit(x)) if w else vc.better_eq(mm, vc.fit(x), vc.fit(pop0.get(i), m0)))))
        for l in NUM_LISTS + OTHER_LISTS: g.append((f"{l} stays", z3.And(term(h[l].n) == term(old["hist"][l].n), same_prefix(h[l], old["hist"][l]))))
        return g


CONTRACTS = [StoreInitial, Repeated, ShouldStop, StartValues, CheckTermination, UpdateBest, TrackStep, TrackProcess, AfterInit]


class CheckProblem(Contract):
    """a new search: the problem, the generators from the seed alone, empty history, counter and population"""
    target, props = O + "check_problem", ("C07", "C04", "C20")
    tags = (("seeded", ("C07",)), ("generator", ("C07",)), ("random.Random", ("C07",)), ("empty history", ("C04", "C07")), ("the counter is set", ("C07",)), ("earlier search", ("C07", "C03")), ("the problem is used", ("C07",)))
    def args(self, vc):
        o = optimizer(vc)
        for x in ("problem", "generator", "rng", "history", "pop", "g_best", "g_worst", "unsaved_best", "unsaved_worst", "logger"): o.f[x] = Opaque("stale")
        k = vc.choice(3)
        if k == 0: p = problem(vc)
        elif k == 1: p = PDict([("bounds", Opaque("bounds")), ("minmax", vc.minmax()), ("obj_func", Opaque("obj_func"))])
        else: p = Opaque("object")
        seed = None if vc.choice(2) else z3.Int("seed")
        return {"self": o, "problem": p, "seed": seed, "$k": k}
    def raises(self, vc, a): return z3.BoolVal(a.get("$k") == 2)
    def snapshot(self, vc, a): return dict(maps=dict(vc.maps), alloc=vc.alloc)
    def havoc_call(self, vc, a):
        o = a["self"]
        o.f["problem"] = a["problem"] if isinstance(a["problem"], Obj) else problem(vc)
        o.f["history"] = history(vc, "h")
        for l in HIST: o.f["history"].f[l] = PList("list", [])
        o.f.update(generator=Obj("Generator"), rng=Obj("Random"), logger=Obj("Logger"), pop=None, g_best=None, g_worst=None, nfe_counter=1, unsaved_best=None, unsaved_worst=None)
        return None
    def ensures(self, vc, a, old, r):
        o = a["self"].f
        same = lambda x, y: x is y or (isz(x) and isz(y) and z3.eq(x, y))
        ok = isinstance(o["problem"], Obj) and o["problem"].cls is vc.repo.cls("mealpy.utils.problem.Problem")
        g = [("the problem is used", ok and (a["$k"] != 0 or o["problem"] is a["problem"])),
             ("the problem's variables are seeded with the seed", ok and any(same(s, a["seed"]) and p is o["problem"] for p, s in vc.seeded)),
             ("a generator made from the seed alone", isinstance(o["generator"], Obj) and o["generator"].cls == "Generator" and "seed" in o["generator"].f and same(o["generator"].f["seed"], a["seed"])),
             ("a random.Random made from the seed alone", isinstance(o["rng"], Obj) and o["rng"].cls == "Random" and "seed" in o["rng"].f and same(o["rng"].f["seed"], a["seed"])),
             ("no population, best or worst of an earlier search", all(o[x] is None for x in ("pop", "g_best", "g_worst", "unsaved_best", "unsaved_worst"))),
             ("the counter is set", o["nfe_counter"] == 1 if not isz(o["nfe_counter"]) else o["nfe_counter"] == 1)]
        h = o["history"]
        ok = isinstance(h, Obj) and h.cls is vc.repo.cls("mealpy.utils.history.History")
        g.append(("an empty history", ok and all(isinstance(h.f.get(l), PList) and h.f[l].items == [] for l in HIST)))
        return g


class ProblemVC(SearchVC):
    def start(self): super().start(); self.seeded = []
    def hook(self, q, f, args, kw, node):
        if q == "mealpy.utils.problem.Problem.set_seed":
            self.seeded.append((f.self_, args[0] if args else kw["seed"])); return None
        if q == "mealpy.utils.problem.Problem":
            p = problem(self); s = kw.get("seed")
            self.seeded.append((p, s)); p.f["seed"] = s
            return p
        return super().hook(q, f, args, kw, node)
    def x_numpy_random_default_rng(self, o, a, kw): g = Obj("Generator"); g.f["seed"] = a[0] if a else kw.get("seed"); return g
    def x_random_Random(self, o, a, kw): g = Obj("Random"); g.f["seed"] = a[0] if a else None; return g
CheckProblem.make = ProblemVC


class CheckMode(Contract):
    """one of the four modes, 'single' where the class cannot run in parallel; the number of workers in range"""
    target, props = O + "check_mode_and_workers", ("C08",)
    def args(self, vc):
        o = optimizer(vc); o.f["mode"] = Opaque("stale"); o.f["n_workers"] = Opaque("stale")
        return {"self": o, "mode": z3.String("mode"), "n_workers": None if vc.choice(2) else z3.Int("n_workers")}
    def bad(self, vc, a):
        m, par = a["mode"], a["self"].f["is_parallelizable"]
        known = z3.Or([m == z3.StringVal(x) for x in ("process", "thread", "swarm", "single")])
        c = [z3.Not(known)]
        if a["n_workers"] is not None:
            c += [z3.And(par, m == z3.StringVal("process"), z3.Or(a["n_workers"] < 2, a["n_workers"] > z3.If(vc.cpus - 1 < 61, vc.cpus - 1, 61))), z3.And(par, m == z3.StringVal("thread"), z3.Or(a["n_workers"] < 2, a["n_workers"] > z3.If(vc.cpus + 4 < 32, vc.cpus + 4, 32)))]
        return z3.Or(c)
    def raises(self, vc, a): return self.bad(vc, a)
    def snapshot(self, vc, a): return dict(maps=dict(vc.maps), alloc=vc.alloc)
    def havoc_call(self, vc, a): a["self"].f["mode"] = z3.String("self.mode"); return None
    def ensures(self, vc, a, old, r):
        o, m = a["self"].f, a["mode"]
        par = z3.Or(m == z3.StringVal("process"), m == z3.StringVal("thread"))
        nw = o["n_workers"]
        g = [("the given mode, or single where the class cannot run in parallel", z3.BoolVal(False) if not (isz(o["mode"]) or isinstance(o["mode"], str)) else term(o["mode"]) == z3.If(z3.And(par, z3.Not(o["is_parallelizable"])), z3.StringVal("single"), m))]
        want = 4 if a["n_workers"] is None else a["n_workers"]
        g.append(("the number of workers", z3.Implies(z3.And(par, o["is_parallelizable"]), (term(nw) == want) if isz(nw) or isinstance(nw, int) else z3.BoolVal(False))))
        return g


class ModeVC(SearchVC):
    def start(self): super().start(); self.cpus = z3.Int("cpus"); self.pc.append(self.cpus >= 1)
    def x_os_cpu_count(self, o, a, kw): return self.cpus
CheckMode.make = ModeVC


STEPS = {O + x for x in ("initialize_variables", "before_initialization", "initialization", "before_main_loop", "evolve")}
class SolveVC(SearchVC):
    """the optimizer's own steps: they may do everything but touch the recorded agents and the bookkeeping (frame conditions, checked apart)"""
    def havoc_all(self, o):
        m0 = dict(self.maps)
        for k in list(self.maps): self.maps[k] = self.new(k, self.maps[k].sort())
        self.advance(); self.wf()
        return m0
    def hook(self, q, f, args, kw, node):
        if q not in STEPS: return super().hook(q, f, args, kw, node)
        o = f.self_; step = q.rsplit(".", 1)[1]
        if step == "evolve":
            e = args[0] if args else kw["epoch"]
            self.oblige("solve: evolve is called with the number of the epoch", term(e) == term(o.f["$evolved"]) + 1)
            self.oblige("solve: the stopping rules were checked after the epoch before", term(o.f["$checks_made"]) == term(o.f["$evolved"]))
            o.f["$evolved"] = term(o.f["$evolved"]) + 1
        h = o.f["history"].f
        m0 = self.havoc_all(o)
        for l in AG_LISTS: self.assume(forall(h[l].n, lambda i: z3.And(self.fit(h[l].get(i)) == self.fit(h[l].get(i), m0), self.con(h[l].get(i)) == self.con(h[l].get(i), m0), inb(self, h[l].get(i)))) if h[l].items != [] else z3.BoolVal(True))
        o.f["nfe_counter"] = self.new("nfe", I)
        if step in ("initialization", "before_main_loop", "evolve"):
            o.f["pop"] = self.fresh_population("pop", self.new("n_agents", I))
            self.assume(term(o.f["pop"].n) >= 1)
            self.assume(forall(o.f["pop"].n, lambda i: inb(self, o.f["pop"].get(i))))
        o.f["g_best"] = SymObj(self.new("g_best", I), "Agent")
        if h["list_global_best"].items != []:
            if step in ("evolve", "before_main_loop"):
                u, w = SymObj(self.new("unsaved", I), "Agent"), SymObj(self.new("unsaved_worst", I), "Agent")      # -1: None
                self.assume(kept(self, o.f["problem"].f["minmax"], u, w, h["list_global_best"]))
                o.f["unsaved_best"], o.f["unsaved_worst"] = u, w
        if step == "before_main_loop": o.f["$init"] = self.fit(h["list_global_best"].get(0))
        return None


def kept(vc, mm, u, w, G):
    """nothing is kept, or an agent at least as good as the last recorded best"""
    if u is None: return z3.BoolVal(True)
    return z3.And((u.t == -1) == (w.t == -1), z3.Or(u.t == -1, z3.And(inb(vc, u), inb(vc, w), vc.better_eq(mm, vc.fit(u), vc.fit(G.get(term(G.n) - 1))))))
def inb(vc, x):
    return z3.And(x.t >= 0, x.t < vc.alloc, vc.getf(x, "solution").t >= 0, vc.getf(x, "solution").t < vc.alloc, vc.getf(x, "target").t >= 0, vc.getf(x, "target").t < vc.alloc)


def positive(l): return z3.BoolVal(True) if l.items == [] else forall(l.n, lambda i: real(l.get(i)) >= 0)
def percent(l): return forall(l.n, lambda i: z3.And(real(l.get(i)) >= 0, real(l.get(i)) <= 100))
def records(vc, o, h, k, off):
    """what the history says after k epochs; off = 1 while the initial record is still there"""
    mm = o["problem"].f["minmax"]
    be = lambda x, y: vc.better_eq(mm, x, y)
    G, C = h["list_global_best"], h["list_current_best"]
    g = [(f"{l} has one record per epoch", term(h[l].n) == k + off) for l in AG_LISTS] + [(f"{l} has one entry per epoch", term(h[l].n) == k) for l in NUM_LISTS]
    g.append(("a saved population per epoch exactly when requested", term(h["list_population"].n) == z3.If(term(o["problem"].f["save_population"]), term(k), z3.IntVal(0))))
    g += [("every recorded best fitness is that of the recorded agent", forall(k, lambda i: h["list_global_best_fit"].get(i) == vc.fit(G.get(i + off)))) if not empty(G) and not empty(h["list_global_best_fit"]) else ("", True),
          ("every recorded current fitness is that of the recorded agent", forall(k, lambda i: h["list_current_best_fit"].get(i) == vc.fit(C.get(i + off)))) if not empty(h["list_current_best_fit"]) else ("", True),
          ("the best so far is never worse than the record before", forall(term(k) - (1 - off), lambda i: be(vc.fit(G.get(i + 1)), vc.fit(G.get(i))))),
          ("the best so far is never worse than the best of that epoch's population", forall(k, lambda i: be(vc.fit(G.get(i + off)), vc.fit(C.get(i + off)))))]
    return [x for x in g if x[0]]
def empty(l): return l.items == []


def solve_goals(vc, env, k, n):
    o = env["self"].f; h = o["history"].f
    mm = o["problem"].f["minmax"]; be = lambda x, y: vc.better_eq(mm, x, y)
    G = h["list_global_best"]; k = term(k)
    if o["termination"] is None: stopped = z3.BoolVal(False)
    g = records(vc, o, h, k, 1)
    g += [("the recorded agents exist", z3.And([forall(h[l].n, lambda i: inb(vc, h[l].get(i))) for l in AG_LISTS])),
          ("the first record is the best of the initial population", vc.fit(G.get(0)) == o["$init"]),
          ("as many evolve calls and checks as epochs", z3.And(term(o["$evolved"]) == k, term(o["$checks_made"]) == k)),
          ("no stopping rule held so far", z3.And(z3.Not(o["$stopped_before"]), z3.Not(o["$last"]))),
          ("a population", z3.And(term(o["pop"].n) >= 1, forall(o["pop"].n, lambda i: inb(vc, o["pop"].get(i))))),
          ("no recorded diversity is negative", positive(h["list_diversity"])),
          ("the kept best so far is not worse than the recorded one", kept(vc, mm, o["unsaved_best"], o["unsaved_worst"], G))]
    g.append(("the recorded best fitness is not worse than any member of the population at the end of the epoch", z3.Implies(k >= 1, forall(o["pop"].n, lambda i: be(vc.fit(G.get(k)), vc.fit(o["pop"].get(i)))))))
    if o["g_best"] is not None: g.append(("the best agent has the recorded fitness", z3.Implies(k >= 1, vc.fit(o["g_best"]) == vc.fit(G.get(k)))))
    return g
def solve_havoc(vc, env):
    s = env["self"]; o = s.f; h = o["history"].f
    vc.havoc_all(s)
    for l in AG_LISTS: h[l] = vc.fresh_population(l, vc.new(l + ".len", I))
    for l in NUM_LISTS:
        f = vc.newfun(l, I, R); h[l] = PList("list", n=vc.new(l + ".len", I), get=lambda i, f=f: f(term(i)))
    h["list_population"] = PList("list", n=vc.new("n_pops", I), get=lambda i: Opaque("population"))
    o["pop"] = vc.fresh_population("pop", vc.new("n_agents", I))
    o["g_best"] = SymObj(vc.new("g_best", I), "Agent")
    for x in ("$evolved", "$checks_made", "nfe_counter"): o[x] = vc.new(x, I)
    for x in ("$stopped_before", "$last"): o[x] = vc.new(x, B)
    o["unsaved_best"], o["unsaved_worst"] = SymObj(vc.new("unsaved", I), "Agent"), SymObj(vc.new("unsaved_worst", I), "Agent")


class Solve(Contract):
    target, props = O + "solve", ("C03", "C04", "C05")
    tags = (("one record per epoch", ("C04",)), ("one entry per epoch", ("C04",)), ("saved population per epoch", ("C04",)), ("best fitness is that of", ("C03", "C04", "C21")), ("current fitness is that of", ("C04", "C21")), ("never worse than the record before", ("C03",)), ("never worse than the best of that", ("C03",)),
            ("first record", ("C03",)), ("as many evolve calls", ("C05",)), ("stopping rule", ("C05",)), ("evolve is called", ("C05",)), ("kept best so far", ("C03",)), ("not worse than any member", ("C03",)), ("not worse than the initial", ("C03",)), ("recorded fitness", ("C03",)), ("last recorded best", ("C03",)),
            ("at most the configured", ("C05",)), ("executed epochs is reported", ("C04",)), ("one check of", ("C05",)), ("ends early", ("C05",)), ("one exploration", ("C04",)), ("exploration and exploitation", ("C04",)), ("recorded diversity", ("C04",)))
    make = SolveVC
    loops = {0: Inv(solve_goals, solve_havoc)}
    def args(self, vc):
        o = optimizer(vc); o.f["pop"] = o.f["g_best"] = Opaque("stale")
        o.f["history"] = history(vc, "old")
        o.f.update({"$evolved": 0, "$checks_made": 0, "$stopped_before": z3.BoolVal(False), "$last": z3.BoolVal(False), "$init": z3.RealVal(0)})
        return {"self": o, "problem": problem(vc), "mode": z3.String("mode"), "n_workers": None, "termination": None if vc.choice(2) else termination(vc, z3.Int("limit.max_epoch")), "starting_solutions": Opaque("starts"), "seed": z3.Int("seed")}
    def snapshot(self, vc, a): return dict(maps=dict(vc.maps), alloc=vc.alloc, epoch=a["self"].f["epoch"])
    def exceptional(self, vc, a, old, e): return [(f"the search itself does not raise {e.kind}", z3.BoolVal(e.kind == "ValueError" and not vc.started(a)))]
    def ensures(self, vc, a, old, r):
        o = a["self"].f; h = o["history"].f
        E = term(o["$evolved"])
        mm = o["problem"].f["minmax"]; be = lambda x, y: vc.better_eq(mm, x, y)
        g = records(vc, o, h, E, 0)
        g += [("at least one and at most the configured number of epochs", z3.And(E >= 1, E <= old["epoch"])), ("the number of executed epochs is reported", term(h["epoch"]) == E),
              ("one check of the stopping rules after every epoch", term(o["$checks_made"]) == E),
              ("no epoch was executed after a stopping rule held", z3.Not(o["$stopped_before"])),
              ("the search ends early only where a stopping rule holds", z3.Or(E == old["epoch"], o["$last"])),
              ("one exploration and exploitation value per epoch", z3.And(term(h["list_exploration"].n) == E, term(h["list_exploitation"].n) == E)),
              ("exploration and exploitation are between 0 and 100 and add up to 100", z3.And(percent(h["list_exploration"]), percent(h["list_exploitation"]), forall(E, lambda i: real(h["list_exploration"].get(i)) + real(h["list_exploitation"].get(i)) == 100))),
              ("the returned agent has the last recorded best fitness", isinstance(r, SymObj) and vc.fit(r) == h["list_global_best_fit"].get(E - 1)),
              ("the last recorded best fitness is not worse than any member of the population", forall(o["pop"].n, lambda i: be(h["list_global_best_fit"].get(E - 1), vc.fit(o["pop"].get(i))))),
              ("the first recorded best fitness is not worse than the initial best", be(h["list_global_best_fit"].get(0), o["$init"]))]
        return g
SolveVC.started = lambda self, a: isz(a["self"].f["$evolved"])
CONTRACTS += [CheckProblem, CheckMode, Solve]
