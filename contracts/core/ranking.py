"""C12: ranking and selection helpers of Optimizer; agent comparison (C14)."""
from pydv.corelib import *
ASSUME = ["sorted and numpy.argsort sort by the key and permute; order among equal keys is any"]
O = "mealpy.optimizer.Optimizer."


class Sorted(Contract):
    target, props = O + "get_sorted_population", ("C12",)
    def args(self, vc): return dict(pop=vc.population("pop"), minmax=vc.minmax())
    def result(self, vc, a):
        n = term(a["pop"].n); p = vc.newfun("sorted", I, I); g = a["pop"]
        return PList("tuple", [PList("list", n=n, get=lambda i: g.get(p(term(i)))), PList("list", n=n, get=lambda i: p(term(i)))])
    def ensures(self, vc, a, old, ret):
        pop, mm = a["pop"], a["minmax"]
        new, ix = ret.items
        n = term(pop.n)
        f = lambda i: vc.fit(new.get(i), old["maps"])
        return [("as many agents as given", z3.And(term(new.n) == n, term(ix.n) == n)),
                ("the indices are positions of the population", forall(n, lambda i: z3.And(0 <= ix.get(i), ix.get(i) < n))),
                ("no index occurs twice", forall2(n, lambda i, k: ix.get(i) != ix.get(k))),
                ("the i-th agent is the one at the i-th index", forall(n, lambda i: new.get(i).t == pop.get(ix.get(i)).t)),
                ("from best to worst", forall2(n, lambda i, k: vc.better_eq(mm, f(i), f(k)))),
                ("no agent comes before the first or after the last", z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < n), z3.And(vc.better_eq(mm, f(0), vc.fit(pop.get(i_), old["maps"])), vc.better_eq(mm, vc.fit(pop.get(i_), old["maps"]), f(n - 1)))))),
                ("nothing is modified", vc.unchanged(old))]


class BestAgent(Contract):
    target, props = O + "get_best_agent", ("C12",)
    worst = False
    def args(self, vc): return dict(pop=vc.population("pop", minlen=1), minmax=vc.minmax())
    def requires(self, vc, a): return [("a non-empty population", term(a["pop"].n) >= 1)]
    def havoc(self, vc, a): vc.havoc_new(vc.alloc)
    def result(self, vc, a):
        t = vc.new("best", I)
        return PList("tuple", [SymObj(t, "Agent"), vc.new("index", I)])
    def ensures(self, vc, a, old, ret):
        b, ix = ret.items
        pop, mm, m0 = a["pop"], a["minmax"], old["maps"]
        fb = vc.fit(b)
        cmp = (lambda x, y: vc.better_eq(mm, y, x)) if self.worst else (lambda x, y: vc.better_eq(mm, x, y))
        return [("a new agent", z3.And(b.t >= old["alloc"], b.t < vc.alloc, vc.getf(b, "solution").t >= old["alloc"], vc.getf(b, "target").t >= old["alloc"])),
                ("with the position and fitness of the one at the index", z3.And(0 <= ix, ix < pop.n, fb == vc.fit(pop.get(ix), m0), vc.con(b) == vc.con(pop.get(ix), m0))),
                ("none is " + ("worse" if self.worst else "better"), forall(pop.n, lambda i: cmp(fb, vc.fit(pop.get(i), m0)))),
                ("nothing is modified", vc.unchanged(old))]
class WorstAgent(BestAgent):
    target, worst = O + "get_worst_agent", True


class SpecialAgents(Contract):
    target, props = O + "get_special_agents", ("C12",)
    def args(self, vc):
        d = dict(pop=vc.population("pop", minlen=1), minmax=vc.minmax())
        for k in ("n_best", "n_worst"):
            d[k] = None if vc.choice(2) else z3.Int(k)
            if d[k] is not None: vc.assume(d[k] >= 0)
        d["return_index"] = bool(vc.choice(2))
        return d
    def requires(self, vc, a):
        return [("a non-empty population", term(a["pop"].n) >= 1)] + [(f"{k} is not negative", term(a[k]) >= 0) for k in ("n_best", "n_worst") if a[k] is not None]
    def havoc(self, vc, a): vc.havoc_new(vc.alloc)
    def result(self, vc, a):
        n = term(a["pop"].n); p = vc.newfun("sorted", I, I); g = a["pop"]
        r = [PList("list", n=n, get=lambda i: g.get(p(term(i))))]
        for k in ("n_best", "n_worst"):
            if a[k] is None: r.append(None); continue
            f = vc.newfun(k, I, I); m = z3.If(term(a[k]) < n, term(a[k]), n)
            r.append(PList("list", n=m, get=(lambda i, f=f: f(term(i))) if a.get("return_index") is True else (lambda i, f=f: SymObj(f(term(i)), "Agent"))))
        return PList("tuple", r)
    def ensures(self, vc, a, old, ret):
        pop, mm, m0 = a["pop"], a["minmax"], old["maps"]
        new, best, worst = ret.items
        n = term(pop.n)
        g = [("as many agents as given", term(new.n) == n), ("from best to worst", forall2(n, lambda i, k: vc.better_eq(mm, vc.fit(new.get(i), m0), vc.fit(new.get(k), m0)))),
             ("every agent is one of the given", forall(n, lambda i: z3.And(new.get(i).t >= 0, z3.Exists([k_], z3.And(0 <= k_, k_ < n, new.get(i).t == pop.get(k_).t)))) if not a.get("$assume") else z3.BoolVal(True)),
             ("none is better than the first or worse than the last", forall(n, lambda i: z3.And(vc.better_eq(mm, vc.fit(new.get(0), m0), vc.fit(pop.get(i), m0)), vc.better_eq(mm, vc.fit(pop.get(i), m0), vc.fit(new.get(n - 1), m0))))),
             ("nothing is modified", vc.unchanged(old))]
        for nm, lst, pos in (("n_best", best, lambda i: i), ("n_worst", worst, lambda i: n - 1 - i)):
            if a[nm] is None: g.append((nm + " None gives None", lst is None)); continue
            if not isinstance(lst, PList): g.append((nm + " gives a list", False)); continue
            m = z3.If(term(a[nm]) < n, term(a[nm]), n)
            g.append((nm + " agents", term(lst.n) == m))
            if a["return_index"] is True: g.append((nm + " are the indices of the agents in order", forall(m, lambda i: z3.And(0 <= lst.get(i), lst.get(i) < n, pop.get(lst.get(i)).t == new.get(pos(i)).t))))
            else:
                g.append((nm + " are copies of the agents in order", forall(m, lambda i: z3.And(vc.fit(lst.get(i)) == vc.fit(new.get(pos(i)), m0), vc.con(lst.get(i)) == vc.con(new.get(pos(i)), m0)))))
                g.append((nm + " are new agents", forall(m, lambda i: z3.And(lst.get(i).t >= old["alloc"], lst.get(i).t < vc.alloc, vc.getf(lst.get(i), "solution").t >= old["alloc"]))))
        return g


class BetterAgent(Contract):
    target, props = O + "get_better_agent", ("C12", "C03")
    def args(self, vc): return dict(agent_x=vc.agent("agent_x"), agent_y=vc.agent("agent_y"), minmax=vc.minmax(), reverse=bool(vc.choice(2)))
    def havoc(self, vc, a): vc.havoc_new(vc.alloc)
    def result(self, vc, a): return SymObj(vc.new("better", I), "Agent")
    def ensures(self, vc, a, old, r):
        x, y, mm, m0 = a["agent_x"], a["agent_y"], a["minmax"], old["maps"]
        fx, fy, fr = vc.fit(x, m0), vc.fit(y, m0), vc.fit(r)
        ge = (lambda p: vc.better_eq(mm, p, fr)) if a["reverse"] is True else (lambda p: vc.better_eq(mm, fr, p))
        return [("not the worse of the two" if a["reverse"] is not True else "not the better of the two", z3.And(ge(fx), ge(fy))),
                ("a copy of one of the two", z3.Or(z3.And(fr == fx, vc.con(r) == vc.con(x, m0)), z3.And(fr == fy, vc.con(r) == vc.con(y, m0)))),
                ("independent of the two", z3.And(r.t >= old["alloc"], r.t < vc.alloc, vc.getf(r, "solution").t >= old["alloc"], vc.getf(r, "target").t >= old["alloc"], vc.getf(r, "solution").t < vc.alloc, vc.getf(r, "target").t < vc.alloc)),
                ("nothing is modified", vc.unchanged(old))]


class Greedy(Contract):
    target, props = O + "greedy_selection_population", ("C12",)
    def args(self, vc): return dict(pop_old=vc.population("old"), pop_new=vc.population("new"), minmax=vc.minmax())
    def raises(self, vc, a): return term(a["pop_old"].n) != term(a["pop_new"].n)
    def result(self, vc, a): return vc.fresh_population("greedy", term(a["pop_old"].n))
    def ensures(self, vc, a, old, r):
        o, n, mm, m0 = a["pop_old"], a["pop_new"], a["minmax"], old["maps"]
        return [("as many agents as given", term(r.n) == term(o.n)),
                ("the newcomer where it is strictly better, else the incumbent", forall(o.n, lambda i: r.get(i).t == z3.If(vc.better(mm, vc.fit(n.get(i), m0), vc.fit(o.get(i), m0)), n.get(i).t, o.get(i).t))),
                ("nothing is modified", vc.unchanged(old))]


class Trimmed(Contract):
    target, props = O + "get_sorted_and_trimmed_population", ("C12",)
    def args(self, vc): d = dict(pop=vc.population("pop"), pop_size=z3.Int("pop_size"), minmax=vc.minmax()); vc.assume(d["pop_size"] >= 0); return d
    def requires(self, vc, a): return [("a size", term(a["pop_size"]) >= 0)]
    def result(self, vc, a):
        p = vc.newfun("trimmed", I, I); g = a["pop"]; n, k = term(g.n), term(a["pop_size"])
        return PList("list", n=z3.If(k < n, k, n), get=lambda i: g.get(p(term(i))))
    def ensures(self, vc, a, old, r):
        pop, mm, m0 = a["pop"], a["minmax"], old["maps"]
        n, k = term(pop.n), term(a["pop_size"])
        return [("at most pop_size agents", term(r.n) == z3.If(k < n, k, n)),
                ("from best to worst", forall2(r.n, lambda i, j: vc.better_eq(mm, vc.fit(r.get(i), m0), vc.fit(r.get(j), m0)))),
                ("the first is the best", z3.Implies(term(r.n) > 0, forall(n, lambda i: vc.better_eq(mm, vc.fit(r.get(0), m0), vc.fit(pop.get(i), m0))))),
                ("every agent is one of the given", forall(r.n, lambda i: z3.Exists([k_], z3.And(0 <= k_, k_ < n, r.get(i).t == pop.get(k_).t)))),
                ("nothing is modified", vc.unchanged(old))]


class SpecialFitness(Contract):
    target, props = O + "get_special_fitness", ("C12",)
    def args(self, vc): return dict(pop=vc.population("pop", minlen=1), minmax=vc.minmax())
    def requires(self, vc, a): return [("a non-empty population", term(a["pop"].n) >= 1)]
    def ensures(self, vc, a, old, r):
        pop, mm, m0 = a["pop"], a["minmax"], old["maps"]
        _, b, w = r.items
        return [("best and worst fitness of the population", forall(pop.n, lambda i: z3.And(vc.better_eq(mm, real(b), vc.fit(pop.get(i), m0)), vc.better_eq(mm, vc.fit(pop.get(i), m0), real(w))))),
                ("which members of the population have", z3.And(z3.Exists([i_], z3.And(0 <= i_, i_ < pop.n, vc.fit(pop.get(i_), m0) == b)), z3.Exists([i_], z3.And(0 <= i_, i_ < pop.n, vc.fit(pop.get(i_), m0) == w)))),
                ("nothing is modified", vc.unchanged(old))]


class CompareTarget(Contract):
    target, props = O + "compare_target", ("C12",)
    def args(self, vc): return dict(target_x=SymObj(z3.Int("tx"), "Target"), target_y=SymObj(z3.Int("ty"), "Target"), minmax=vc.minmax())
    def fs(self, vc, a): return vc.getf(a["target_x"], "_fitness"), vc.getf(a["target_y"], "_fitness")
    def result(self, vc, a): return vc.new("cmp", B)
    def ensures(self, vc, a, old, r):
        x, y = self.fs(vc, a)
        # documented use: is x at least as good (strictly better for minimisation; ties count for x when maximising)
        return [("a strictly better first one is reported", z3.Implies(vc.better(a["minmax"], x, y), term(r))), ("a strictly worse first one is not", z3.Implies(vc.better(a["minmax"], y, x), z3.Not(term(r)))),
                ("nothing is modified", vc.unchanged(old))]
class CompareFitness(CompareTarget):
    target = O + "compare_fitness"
    def args(self, vc): return dict(fitness_x=z3.Real("fx"), fitness_y=z3.Real("fy"), minmax=vc.minmax())
    def fs(self, vc, a): return real(a["fitness_x"]), real(a["fitness_y"])


class Duplicate(Contract):
    target, props = O + "duplicate_pop", ("C12", "C14", "C21")
    def args(self, vc): return dict(pop=vc.population("pop"))
    def havoc(self, vc, a): vc.havoc_new(vc.alloc)
    def result(self, vc, a): return vc.fresh_population("dup", term(a["pop"].n))
    def ensures(self, vc, a, old, r):
        pop, m0 = a["pop"], old["maps"]
        return [("as many agents as given", term(r.n) == term(pop.n)),
                ("each a new agent", forall(pop.n, lambda i: z3.And(r.get(i).t >= old["alloc"], r.get(i).t < vc.alloc, vc.getf(r.get(i), "solution").t >= old["alloc"], vc.getf(r.get(i), "target").t >= old["alloc"]))),
                ("with the position and fitness of the original", forall(pop.n, lambda i: z3.And(vc.fit(r.get(i)) == vc.fit(pop.get(i), m0), vc.con(r.get(i)) == vc.con(pop.get(i), m0)))),
                ("pairwise different", forall2(pop.n, lambda i, k: r.get(i).t != r.get(k).t)),
                ("nothing is modified", vc.unchanged(old))]


A = "mealpy.utils.agent.Agent."
class AgentCompare(Contract):
    target, props = A + "_compare_fitness", ("C14",)
    def args(self, vc): return {"self": vc.agent("self_"), "other": vc.agent("other"), "minmax": vc.minmax()}
    def result(self, vc, a): return vc.new("cmp", I)
    def ensures(self, vc, a, old, r):
        x, y = vc.fit(a["self"]), vc.fit(a["other"])
        b = vc.better(a["minmax"], x, y)
        return [("-1 better, 0 equal, 1 worse", intt(r) == z3.If(x == y, 0, z3.If(b, -1, 1))), ("nothing is modified", vc.unchanged(old))]
class AgentBetter(Contract):
    target, props = A + "is_better_than", ("C14",)
    def args(self, vc): return {"self": vc.agent("self_"), "other": vc.agent("other"), "minmax": vc.minmax()}
    def result(self, vc, a): return vc.new("cmp", B)
    def ensures(self, vc, a, old, r):
        return [("exactly when its fitness is strictly better", term(r) == vc.better(a["minmax"], vc.fit(a["self"]), vc.fit(a["other"]))), ("nothing is modified", vc.unchanged(old))]
class AgentPick(Contract):
    target, props = A + "get_better_solution", ("C14",)
    def args(self, vc): return {"self": vc.agent("self_"), "other": vc.agent("other"), "minmax": vc.minmax()}
    def result(self, vc, a): return SymObj(vc.new("pick", I), "Agent")
    def ensures(self, vc, a, old, r):
        x, y = vc.fit(a["self"]), vc.fit(a["other"])
        return [("itself unless the other is strictly better", r.t == z3.If(vc.better(a["minmax"], y, x), a["other"].t, a["self"].t)), ("nothing is modified", vc.unchanged(old))]

CONTRACTS = [AgentCopy, Sorted, BestAgent, WorstAgent, SpecialAgents, BetterAgent, Greedy, Trimmed, SpecialFitness, CompareTarget, CompareFitness, Duplicate, AgentCompare, AgentBetter, AgentPick]
