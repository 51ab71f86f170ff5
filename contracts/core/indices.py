"""C13: random index helpers.  The generator may return anything its documentation allows; 'can occur' is stated over its draws."""
from pydv.corelib import *
ASSUME = ["the generator's integers, choice, permutation and random give anything their documentation allows and nothing else"]
O = "mealpy.optimizer.Optimizer."


class IndexVC(CoreVC):
    def start(self): super().start(); self.draws, self.perms = [], []
    def permutation(self, n, key=None):
        r = super().permutation(n, key); self.perms.append(r); return r
    def rng_choice(self, args, kw):
        n0 = len(self.pc)
        r = super().rng_choice(args, kw)
        a = self.force(args[0] if args else kw["a"])
        if isinstance(a, Rng): a = self.iterable(a)
        self.draws.append((getattr(r, "draw", None), term(a.n) if isinstance(a, PList) else intt(a), a))
        return r
    def seqsum(self, v):
        s = self.new("sum", R); n = term(v.n)
        g = lambda i: real(v.get(i))
        # a sum of numbers none of which is negative is at least each of them
        self.assume(z3.Implies(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < n), g(i_) >= 0)), z3.And(s >= 0, forall(n, lambda i: s >= g(i)))))
        return s
    def rng_integers(self, args, kw):
        r = super().rng_integers(args, kw); return r


class SampleOne(Contract):
    target, props, make = O + "sample_indexes_exclude_one", ("C13",), IndexVC
    def args(self, vc):
        return dict(generator=Obj("Generator"), pop_size=z3.Int("pop_size"), exclude_idx=z3.Int("exclude_idx"), n_samples=z3.Int("n_samples"), replace=bool(vc.choice(2)))
    def allowed(self, a): return lambda v: z3.And(0 <= v, v < a["pop_size"], v != a["exclude_idx"])
    def count(self, a): return a["pop_size"] - 1
    def requires(self, vc, a):
        return [("an index of the population is excluded", z3.And(0 <= a["exclude_idx"], a["exclude_idx"] < a["pop_size"])), ("there are enough others", z3.And(a["n_samples"] >= 1, self.count(a) >= 1, True if a["replace"] else a["n_samples"] <= self.count(a)))]
    def result(self, vc, a):
        if vc.branch(a["n_samples"] == 1): return vc.new("index", I)
        f = vc.newfun("sample", I, I); return PList("array", n=a["n_samples"], get=lambda i: f(term(i)))
    def ensures(self, vc, a, old, r):
        ok = self.allowed(a)
        if not isinstance(r, PList):
            g = [("a number only where one index is wanted", a["n_samples"] == 1), ("a valid index, not an excluded one", ok(intt(r)))]; first = intt(r)
        else:
            g = [("an array of the wanted number of indices", z3.And(term(r.n) == a["n_samples"], a["n_samples"] != 1)), ("valid indices, no excluded one", forall(a["n_samples"], lambda i: ok(intt(r.get(i)))))]
            if not a["replace"]: g.append(("no index twice", forall2(a["n_samples"], lambda i, k: intt(r.get(i)) != intt(r.get(k)))))
            first = intt(r.get(z3.IntVal(0)))
        if getattr(vc, "draws", None):
            f, n, src = vc.draws[0]
            d, v = z3.Int("draw"), z3.Int("v")
            if getattr(src, "inv", None) is not None:       # drawn from a computed list of candidates: the position of v in it is the witness
                g.append(("every allowed index can occur", z3.ForAll([v], z3.Implies(self.canoccur(vc, a, v), z3.And(0 <= src.inv(v), src.inv(v) < n, z3.substitute(first, (f(z3.IntVal(0)), src.inv(v))) == v)))))
                return g
            img = z3.substitute(first, (f(z3.IntVal(0)), d))
            g.append(("every allowed index can occur", z3.ForAll([v], z3.Implies(self.canoccur(vc, a, v), z3.Exists([d], z3.And(0 <= d, d < n, img == v))))))
        return g
    def canoccur(self, vc, a, v): return self.allowed(a)(v)


class SampleList(SampleOne):
    target = O + "sample_indexes_exclude_list"
    def args(self, vc):
        f = z3.Function("excluded", I, I); n = z3.Int("excluded.len"); vc.pc.append(n >= 0)
        x = PList("array" if vc.choice(2) else "list", n=n, get=lambda i: f(term(i)))
        return dict(generator=Obj("Generator"), pop_size=z3.Int("pop_size"), exclude_list=x, n_samples=z3.Int("n_samples"), replace=bool(vc.choice(2)))
    def allowed(self, a):
        x = a["exclude_list"]
        return lambda v: z3.And(0 <= v, v < a["pop_size"], z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < x.n), v != x.get(k_))))
    def requires(self, vc, a):
        x = a["exclude_list"]
        vc.enough = z3.Int("allowed.count")
        return [("indices of the population are excluded", z3.And(a["pop_size"] >= 1, forall(x.n, lambda i: z3.And(0 <= x.get(i), x.get(i) < a["pop_size"])))), ("a sample is wanted", a["n_samples"] >= 1)]
    exc = ("ValueError",)
    def exceptional(self, vc, a, old, e):
        # too few allowed indices for the sample: ValueError of the generator
        return [("raises only where there are too few allowed indices", z3.BoolVal(e.kind == "ValueError"))]


class Roulette(Contract):
    target, props, make = O + "get_index_roulette_wheel_selection", ("C13",), IndexVC
    def args(self, vc):
        f = z3.Function("fitness", I, R); n = z3.Int("n"); vc.pc.append(n >= 1)
        return {"self": optimizer(vc, problem=problem(vc)), "list_fitness": PList(("list", "array", "tuple")[vc.choice(3)], n=n, get=lambda i: f(term(i)), dt="float")}
    def result(self, vc, a): return vc.new("index", I)
    def ensures(self, vc, a, old, r):
        l = a["list_fitness"]; n = term(l.n); mm = a["self"].f["problem"].f["minmax"]
        alleq = forall(n, lambda i: l.get(i) == l.get(0))
        return [("a valid index", z3.And(0 <= intt(r), intt(r) < n)),
                ("never the worst when minimising, unless all are equal", z3.Implies(z3.And(term(mm) == z3.StringVal("min"), z3.Not(alleq)), z3.Exists([i_], z3.And(0 <= i_, i_ < n, l.get(i_) > l.get(intt(r)))))),
                ("the population is not modified", vc.unchanged(old))]


class Tournament(Contract):
    target, props, make = O + "get_index_kway_tournament_selection", ("C13",), IndexVC
    def args(self, vc):
        k = z3.Real("k_way") if vc.choice(2) else z3.Int("k_way")
        return {"self": optimizer(vc, problem=problem(vc)), "pop": vc.population("pop", minlen=1), "k_way": k, "output": z3.Int("output"), "reverse": bool(vc.choice(2))}
    def k(self, a):
        k = a["k_way"]
        return z3.If(z3.And(k > 0, k < 1), z3.ToInt(k * z3.ToReal(term(a["pop"].n))), z3.ToInt(k)) if k.sort() == R else k
    def requires(self, vc, a):
        k = self.k(a)
        return [("the candidates suffice", z3.And(a["output"] >= 1, a["output"] <= k, k <= term(a["pop"].n)))] + ([("a proportion", z3.And(a["k_way"] > 0, a["k_way"] < 1))] if a["k_way"].sort() == R else [])
    def selected(self, vc, r, m, k, f):
        """the k-th candidate is among the selected; the sorting permutation is the witness"""
        w = [z3.And(0 <= t, t < m, intt(r.get(t)) == f(k_)) for p, q in getattr(vc, "perms", ()) for t in (q(k_), q(k_) - (k - m))]
        return z3.Or(w + ([z3.Exists([i_], z3.And(0 <= i_, i_ < m, intt(r.get(i_)) == f(k_)))] if not w else []))
    def result(self, vc, a): f = vc.newfun("selected", I, I); return PList("list", n=a["output"], get=lambda i: f(term(i)))
    def ensures(self, vc, a, old, r):
        pop, mm, m = a["pop"], a["self"].f["problem"].f["minmax"], a["output"]
        be = (lambda x, y: vc.better_eq(mm, y, x)) if a["reverse"] else (lambda x, y: vc.better_eq(mm, x, y))
        fit = lambda i: vc.fit(pop.get(i), old["maps"])
        g = [("the wanted number of indices", term(r.n) == m), ("valid indices", forall(m, lambda i: z3.And(0 <= intt(r.get(i)), intt(r.get(i)) < pop.n))),
             ("no index twice", forall2(m, lambda i, k: intt(r.get(i)) != intt(r.get(k)))),
             ("the population is not modified", vc.unchanged(old))]
        if getattr(vc, "draws", None):
            f, n, src = vc.draws[0]; k = self.k(a)
            g.append(("every index can be a candidate", n == term(pop.n)))
            g.append(("the selected are candidates", forall(m, lambda i: z3.Exists([k_], z3.And(0 <= k_, k_ < k, f(k_) == intt(r.get(i)))))))
            g.append((("the worst" if a["reverse"] else "the best") + " of the candidates are selected", z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < k), z3.Or(self.selected(vc, r, m, k, f), forall(m, lambda i: be(fit(intt(r.get(i))), fit(f(k_)))))), patterns=[f(k_)])))
        return g


CONTRACTS = [SampleOne, SampleList, Roulette, Tournament]
