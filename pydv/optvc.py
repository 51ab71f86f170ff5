"""Symbolic search of one optimizer class: __init__, then Optimizer.solve, over the real source, in sequential ('single') or
population-at-once ('swarm') mode.  Obligations: every position handed to the objective is feasible (C01); at the end of every
epoch every population member and the best agent is feasible (C01) and carries the objective value of its own position (C02)."""
import ast, time, z3
from .heap import *
from .src import Cls, Fn, Repo
from .interp import Interp, TRUE, FALSE, numeric, intlike, iterm, is_num_const

OPT = "mealpy.optimizer.Optimizer"
LB, UB = z3.Int("problem_lb"), z3.Int("problem_ub")

ELEM1 = set("""abs absolute exp exp2 expm1 log log2 log10 log1p sqrt cbrt square sin cos tan arcsin arccos arctan sinh cosh tanh arcsinh arccosh arctanh sign floor ceil round rint fix trunc
 radians deg2rad rad2deg degrees isnan isinf isfinite logical_not negative reciprocal nan_to_num real imag gamma power float_power multiply add subtract divide true_divide floor_divide mod remainder fmod
 arctan2 hypot maximum minimum fmax fmin logical_and logical_or logical_xor equal not_equal less less_equal greater greater_equal bitwise_xor bitwise_and bitwise_or heaviside isclose clip where
 zeros_like ones_like empty_like full_like cumsum cumprod sort argsort flip roll around bitwise_not invert sinc""".split())
REDUCE = set("""sum mean max min amax amin std var median prod argmin argmax any all ptp count_nonzero average nanmean nansum nanmax nanmin percentile quantile norm allclose array_equal dot vdot inner trace det isscalar size ndim nanstd""".split())
CONSTR = set("zeros ones empty full arange linspace eye identity logspace geomspace".split())
MUTNP = set("fill_diagonal put copyto place putmask put_along_axis".split())
RAND_DIST = set("""random uniform normal standard_normal exponential standard_cauchy integers randint rand randn beta gamma poisson binomial laplace lognormal logistic triangular weibull rayleigh gumbel chisquare
 standard_t standard_gamma power pareto geometric multivariate_normal standard_exponential wald vonmises rvs gauss random_sample betavariate uniform randrange""".split())


class OptVC(Interp):
    def __init__(self, repo, cls, mode, prover, annot=None):
        super().__init__(repo, cls, mode, prover, annot)
        self.opt = repo.cls(OPT)
        self.solve_loop = None
        self.start_tv = TV("opq")

    # ------------------------------------------------------------ obligations
    def oblige(self, st, prop, what, goal, node=None):
        """records an obligation and goes on under the assumption that it holds"""
        if not self.dry:
            path = "/".join(n for _, n in self.stacknames)
            line = getattr(node, "lineno", "?")
            self.obls.append((f"{prop} {self.cls.name}[{self.mode}] {path}: {what}", prop, st.pc, goal, line))
        st.assume(goal)

    def feas_arg(self, st, v, what, node):
        v = self.some(st, v)
        if isinstance(v, Opq):
            self.mat(st, v)
            self.oblige(st, "C01", what, Feas(st.con[v.t]), node)
            return st.con[v.t]
        if isinstance(v, Const) and v.v is None: raise Dead("None is evaluated")
        self.oblige(st, "C01", what + " (not an array)", FALSE, node)
        raise Dead("not an array")

    # ------------------------------------------------------------ the environment
    def initial(self):
        st = State()
        st.alloc = fint("alloc0")
        st.havoc_heap()
        st.assume(st.alloc > 2); st.assume(LB >= 0); st.assume(LB < st.alloc); st.assume(UB >= 0); st.assume(UB < st.alloc)
        st.wf_heap()
        st.assume(Feas(st.con[LB])); st.assume(Feas(st.con[UB]))
        self.ismin = z3.Bool("problem_is_min"); self.ndims = z3.Int("n_dims")
        st.assume(self.ndims >= 1)
        st.objs["self"] = {}
        st.objs["$g"] = {"ev": IntV(z3.IntVal(0))}
        self.nfe0 = z3.Int("nfe0")
        return st

    def evaluated(self, st, n):
        """n calls of the user's objective function"""
        st.objs["$g"]["ev"] = IntV(st.objs["$g"]["ev"].t + n)

    def counted(self, st, n):
        d = st.objs["self"]
        c = d.get("nfe_counter")
        d["nfe_counter"] = IntV(iterm(c) + n) if intlike(c) else Any_("counter")

    def counter_ok(self, st):
        c = st.objs["self"].get("nfe_counter")
        return iterm(c) - st.objs["$g"]["ev"].t == self.nfe0 if intlike(c) else FALSE

    # fields that a previous search may have left behind
    def reads(self, st, k, node):
        f = st.objs.get("$init", {}).get(k)
        if f is None: return
        if isinstance(f, Const) and f.v is True:
            if not self.dry: self.set_reads = getattr(self, "set_reads", set()) | {(k, getattr(node, "lineno", 0))}
            return
        if node is not None and node in self.idempotent(st): return
        self.oblige(st, "C07", f"the field {k} is set by this search before it is read", f.t if isinstance(f, BoolV) else z3.BoolVal(f.v), node)
    def idempotent(self, st):
        """the reads of self.f in self.f = max(self.f, self.g) (or min), where no search sets self.g and nothing else in the class sets self.f:
        after an earlier search the field is max(f0, g), and max(max(f0, g), g) is max(f0, g) again"""
        if getattr(self, "idem", None) is None:
            stores, pats = {}, []
            for c in self.repo.mro(self.cls):
                for fn in c.fns.values():
                    if fn.name == "__init__": continue
                    for n in ast.walk(fn.node):
                        if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load): stores[n.attr] = stores.get(n.attr, 0) + 1
                        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id in ("max", "min") and len(n.value.args) == 2 and not n.value.keywords: pats.append((fn, n))
            self.idem = set()
            for fn, n in pats:
                me, t = fn.node.args.args[0].arg if fn.node.args.args else None, n.targets[0]
                own = lambda x: isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me
                if fn.static or not own(t) or not all(own(x) for x in n.value.args) or stores[t.attr] != 1: continue
                a, b = n.value.args
                if a.attr != t.attr: a, b = b, a
                if a.attr == t.attr and b.attr != t.attr and b.attr not in st.objs.get("$init", {}) and b.attr not in stores: self.idem.add(a)
        return self.idem
    def writes(self, st, k):
        d = st.objs.get("$init")
        if d is not None and k in d: d[k] = Const(True)

    def objattr(self, b, a, st):
        n = b.name
        if n == "problem":
            if a in ("lb", "ub"): return Opq(LB if a == "lb" else UB, dim1=True)
            if a == "n_dims": return IntV(self.ndims)
            if a == "minmax": return StrSym(self.ismin)
            if a in ("get_target", "generate_solution", "correct_solution", "set_seed", "decode_solution", "encode_solution", "get_name", "get_class_name"): return Fun(name="problem." + a, self_=b)
            if a in ("bounds",): return Any_("bounds")
            if a in ("n_objs", "seed"): return Sca()
            if a in ("save_population",): return BoolV(z3.Bool("save_population"))
            return Any_("problem." + a)
        if n == "self":
            if a == "__class__": return Any_("class")
            if a == "__dict__": return Any_("dict")
            if a == "__module__": return Any_("text")
            return None
        if n in ("generator", "rng", "logger", "validator", "termination"):
            return Fun(name=f"{n}.{a}", self_=b) if n != "termination" or a in ("set_start_values", "should_terminate") else Any_(f"{n}.{a}")
        return None

    def mangled(self, a, b):
        return None

    def getattr(self, b, a, st, node=None):
        if isinstance(b, Obj) and a.startswith("__") and not a.endswith("__") and self.ctx and self.ctx[-1][1] is not None:
            f = self.ctx[-1][1].fns.get(a)
            if f is not None: return Fun(fn=f, self_=None if f.static else b)
        if isinstance(b, Obj) and b.name == "self": self.reads(st, a, node)
        return super().getattr(b, a, st, node)

    def setattr(self, b, a, v, st):
        super().setattr(b, a, v, st)
        if isinstance(b, Obj) and b.name == "self": self.writes(st, a)

    def construct(self, c, args, kw, st, node):
        q = c.qual
        if q == "mealpy.utils.agent.Agent" or c.name == "Agent":
            names = ["solution", "target"]
            d = dict(zip(names, args)); d.update(kw)
            if "**" in d: raise Unsupported("Agent(**...)")
            return self.new_agent(st, d.pop("solution", None), d.pop("target", None), d)
        if q == "mealpy.utils.target.Target": return Tgt(fint("madeup"))
        if q == "mealpy.utils.history.History":
            o = Obj("history", c); st.objs["history"] = {}
            f = self.repo.method(c, "__init__")
            if f: self.call_fn(f, o, args, {**kw}, st, node)
            return o
        if q == "mealpy.utils.problem.Problem": return Obj("problem")
        if q == "mealpy.utils.logger.Logger": return Obj("logger")
        if q == "mealpy.utils.validator.Validator": return Obj("validator")
        if q == "mealpy.utils.termination.Termination": return Obj("termination")
        if self.opt in self.repo.mro(c): raise Unsupported(f"{c.name} is built inside a search")
        for a in list(args) + list(kw.values()): self.leak(st, a)
        return Any_(c.name)

    # ------------------------------------------------------------ contracts of repo functions
    def contract(self, fn, self_, args, kw, st, node):
        q = fn.qual
        if q.startswith(OPT + "."):
            m = getattr(self, "c_" + fn.name, None)
            if m is not None:
                a = fn.node.args
                names = [x.arg for x in a.args]
                if not fn.static: names = names[1:]
                d = {}
                for n, df in zip(names[len(names) - len(a.defaults):], a.defaults):
                    d[n] = Const(df.value) if isinstance(df, ast.Constant) else Any_("default")
                d.update(zip(names, args)); d.update(kw)
                for k in list(d):
                    if isinstance(d[k], Opt): d[k] = self.some(st, d[k]) if isinstance(d[k].v, (Lst, Ag)) else d[k].v
                self.used_contracts.add(q)
                return m(st, node, d)
        if q.startswith("mealpy.utils.visualize"): return NONE
        if q.startswith("mealpy.utils.") and not q.startswith(("mealpy.utils.history",)):
            for a in list(args) + list(kw.values()): self.leak(st, a)
            if any(isinstance(a, Opq) for a in args): return Opq()
            return Any_(q)
        return NotImplemented

    used_contracts = set()

    def poplist(self, v, st):
        v = self.some(st, v)
        if isinstance(v, Tup): return self.literal(st, v.items)
        if isinstance(v, Seq): v = self.listof(st, v)
        if isinstance(v, Const) and v.v is None: raise Dead("None population")
        if not isinstance(v, Lst): raise Unsupported(f"population expected, got {v}")
        return v

    def perm(self, st, p, node):
        n = st.llen[p.t]
        return self.draw(st, [p], node, n, tv=p.tv)

    def anyelem(self, st, p):
        if p.tv.find().kind is None: raise Dead("empty population")
        i = fint("i"); st.assume(z3.And(0 <= i, i < st.llen[p.t]))
        return self.decode(st, st.lel[p.t][i], p.tv)

    def c_get_sorted_population(self, st, node, d):
        p = self.poplist(d["pop"], st)
        r = self.perm(st, p, node)
        return Tup([r, self.newlist(st, TV("sca"), st.llen[p.t])], False)

    def c_get_special_agents(self, st, node, d):
        p = self.poplist(d["pop"], st)
        r = self.perm(st, p, node)
        def few(n):
            if isinstance(n, Const) and n.v is None: return NONE
            ri = d.get("return_index", Const(False))
            if isinstance(ri, Const) and ri.v is True: return self.newlist(st, TV("sca"))
            m = fint("n"); st.assume(z3.And(0 <= m, m <= st.llen[p.t]))
            if intlike(n): st.assume(m == z3.If(iterm(n) < st.llen[p.t], iterm(n), st.llen[p.t]))
            x = self.draw(st, [p], node, m, tv=p.tv)
            return self.copies(st, x, node)
        return Tup([r, few(d["n_best"]), few(d["n_worst"])], False)

    def c_get_best_agent(self, st, node, d):
        p = self.poplist(d["pop"], st)
        e = self.anyelem(st, p)
        if not isinstance(e, Ag): raise Unsupported(f"the best of something that is no population ({e}, {p})")
        return Tup([self.copy_agent(st, e.t), Sca()], False)
    c_get_worst_agent = c_get_best_agent

    def c_get_special_fitness(self, st, node, d): return Tup([Sca(), Sca(), Sca()], False)

    def c_get_better_agent(self, st, node, d):
        x, y = d["agent_x"], d["agent_y"]
        x = self.some(st, x)
        y = self.some(st, y)
        if not isinstance(x, Ag) or not isinstance(y, Ag):
            if any(isinstance(z, Const) and z.v is None for z in (x, y)): raise Dead("None agent")
            raise Unsupported(f"get_better_agent({x}, {y})")
        r = fint("better"); st.assume(z3.Or(r == x.t, r == y.t))
        return self.copy_agent(st, r)

    def c_greedy_selection_population(self, st, node, d):
        a, b = self.poplist(d["pop_old"], st), self.poplist(d["pop_new"], st)
        st.assume(st.llen[a.t] == st.llen[b.t])
        unify(a.tv, b.tv)
        n = st.llen[a.t]
        row = self.freshrow(st); i = z3.Int("i")
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Or(row[i] == st.lel[a.t][i], row[i] == st.lel[b.t][i])), patterns=[row[i]]))
        return self.newlist(st, a.tv, n, row)

    def c_get_sorted_and_trimmed_population(self, st, node, d):
        p = self.poplist(d["pop"], st)
        n = fint("n"); st.assume(z3.And(0 <= n, n <= st.llen[p.t]))
        k = d["pop_size"]
        if intlike(k): st.assume(z3.Implies(iterm(k) >= 0, n == z3.If(iterm(k) < st.llen[p.t], iterm(k), st.llen[p.t])))
        return self.draw(st, [p], node, n, tv=p.tv)

    def c_duplicate_pop(self, st, node, d):
        return self.copies(st, self.poplist(d["pop"], st), node)

    def c_compare_target(self, st, node, d): return BoolV(fbool("better"))
    def c_compare_fitness(self, st, node, d): return BoolV(fbool("better"))

    def c_sample_indexes_exclude_one(self, st, node, d):
        n = d["n_samples"]
        if isinstance(n, Const) and n.v == 1:
            i = fint("i"); p = d["pop_size"]; st.assume(i >= 0)
            if intlike(p): st.assume(i < iterm(p))
            if intlike(d["exclude_idx"]): st.assume(i != iterm(d["exclude_idx"]))
            return IntV(i)
        return Opq(dim1=True)
    def c_sample_indexes_exclude_list(self, st, node, d):
        n = d["n_samples"]
        if isinstance(n, Const) and n.v == 1:
            i = fint("i"); p = d["pop_size"]; st.assume(i >= 0)
            if intlike(p): st.assume(i < iterm(p))
            return IntV(i)
        return Opq(dim1=True)
    def c_get_index_roulette_wheel_selection(self, st, node, d):
        i = fint("i"); st.assume(i >= 0); return IntV(i)
    def c_get_index_kway_tournament_selection(self, st, node, d): return self.newlist(st, TV("sca"))
    def c_get_levy_flight_step(self, st, node, d): return Opq(dim1=True)

    # The history and the unsaved best/worst hold copies that no other code reaches (frame check), so these contracts leave them out.
    def c_update_global_best_agent(self, st, node, d):
        p = self.poplist(d["pop"], st)
        if p.tv.find().kind is None: raise Dead("empty population")
        if p.tv.find().kind != "agent" or p.tv.find().opt: raise Unsupported(f"the population is {p}")
        self.epoch_obligations(st, p, node, "update of the best")
        r = self.perm(st, p, node)
        b = Ag(st.new("ag")); a = st.new("a"); c = fint("c")
        st.con = Store(st.con, a, c); st.sol = Store(st.sol, b.t, a); st.tgt = Store(st.tgt, b.t, c)
        st.assume(Feas(c)); st.assume(st.llen[p.t] > 0)
        return Tup([r, b], False)
    def c_after_initialization(self, st, node, d):
        """the population is ranked (and sorted on demand); the best and the worst are copies of members"""
        s = st.objs["self"]
        p = self.poplist(s["pop"], st)
        if p.tv.find().kind is None: raise Dead("empty population")
        self.epoch_obligations(st, p, node, "initial population")
        r = self.perm(st, p, node)
        s["g_best"] = self.copy_agent(st, self.anyelem(st, p).t); s["g_worst"] = self.copy_agent(st, self.anyelem(st, p).t)
        f = self.truth(st, s["sort_flag"])
        s["pop"] = self.two(st, z3.simplify(f), lambda x: r, lambda x: p)
        return NONE
    def c_track_optimize_step(self, st, node, d): return NONE
    def c_track_optimize_process(self, st, node, d): return NONE
    def c_check_termination(self, st, node, d):
        if isinstance(d.get("mode"), Const) and d["mode"].v == "start":      # the counter starts at 0 when a termination is given
            st.objs["self"]["nfe_counter"] = IntV(self.nfe0); st.objs["$g"]["ev"] = IntV(z3.IntVal(0))
            return NONE
        return BoolV(fbool("finished"))
    def c_check_problem(self, st, node, d):
        s = st.objs["self"]
        s["problem"], s["generator"], s["rng"], s["logger"], s["history"] = Obj("problem"), Obj("generator"), Obj("rng"), Obj("logger"), Obj("history")
        s["pop"] = s["g_best"] = s["g_worst"] = NONE
        s["nfe_counter"] = IntV(self.nfe0); st.objs["$g"]["ev"] = IntV(z3.IntVal(0))
        return NONE
    def c_check_mode_and_workers(self, st, node, d): return NONE

    def c_set_parameters(self, st, node, d):
        """the hyper-parameters by name: what the fields of these names hold now"""
        l = d.get("parameters")
        if isinstance(l, Tup) and all(isinstance(x, Const) and isinstance(x.v, str) for x in l.items):
            f = st.objs["self"]
            st.objs["$params"] = {x.v: f[x.v] for x in l.items if isinstance(f.get(x.v), (IntV, BoolV, Sca, Const, Any_))}
        return NONE
    def c_get_name(self, st, node, d): return Any_("text")

    def c_generate_group_population(self, st, node, d):
        p = self.poplist(d["pop"], st)
        return self.groups(st, p, node, d["n_groups"], copy=True)

    def groups(self, st, p, node, n, copy):
        """a list of lists of (copies of) agents of p"""
        base = st.alloc
        tv = self.tv(node, "groups"); unify(tv, TV("list", [p.tv]))
        g = fint("g"); st.assume(g >= 0)
        if intlike(n): st.assume(g == z3.If(iterm(n) > 0, iterm(n), 0))
        k, j, x = z3.Int("k"), z3.Int("j"), z3.Int("x")
        old = {h: getattr(st, h) for h in ("con", "sol", "tgt", "llen", "lel")}
        oldat = dict(st.attrs)
        na = fint("alloc"); st.assume(na >= base + 1)
        st.alloc = na
        for h in old: setattr(st, h, fresh(SORTS[h], h))
        for h in old: st.assume(z3.ForAll([x], z3.Implies(x < base, getattr(st, h)[x] == old[h][x]), patterns=[getattr(st, h)[x]]))
        for h in ("sol", "llen", "lel"): st.wf(h)
        src = z3.Function(f"src!{fint().decl().name()}", I, I)
        row = st.lel[base]
        st.assume(z3.ForAll([x], z3.Implies(x >= base, st.sol[x] >= base), patterns=[st.sol[x]]))
        st.assume(st.llen[base] == g)
        st.assume(z3.ForAll([k], z3.And(row[k] > base, row[k] < na), patterns=[row[k]]))
        e = st.lel[row[k]][j]
        pe = old["lel"][p.t][src(e)]
        inb = z3.And(0 <= k, k < g, 0 <= j, j < st.llen[row[k]])
        st.assume(z3.ForAll([k, j], z3.Implies(inb, z3.And(e > base, e < na, st.sol[e] > base, st.sol[e] < na, 0 <= src(e), src(e) < old["llen"][p.t],
            st.con[st.sol[e]] == old["con"][old["sol"][pe]], st.tgt[e] == old["tgt"][pe])), patterns=[e]))
        for a in list(oldat):
            tvk = self.attr_tv[a].find()
            if tvk.kind in ("sca", "any", None): continue
            st.attrs[a] = fresh(AI, "at_" + a)
            st.assume(z3.ForAll([x], z3.Implies(x < base, st.attrs[a][x] == oldat[a][x]), patterns=[st.attrs[a][x]])); st.wf("attr", st.attrs[a])
            if tvk.kind == "opq": st.assume(z3.ForAll([k, j], z3.Implies(inb, st.con[st.attrs[a][e]] == old["con"][oldat[a][pe]]), patterns=[e]))
            else: st.assume(z3.ForAll([k, j], z3.Implies(inb, st.attrs[a][e] == oldat[a][pe]), patterns=[e]))
        return Lst(base, tv)

    def overridden(self, name): return self.repo.method(self.cls, name).cls is not self.opt

    def c_generate_population(self, st, node, d):
        if self.overridden("generate_agent") or self.overridden("generate_empty_agent") or self.overridden("get_target"): return NotImplemented if self.mode == "single" else self.inline_single(st, node, d, "generate_population")
        n = d["pop_size"]
        if isinstance(n, Const) and n.v is None: n = st.objs["self"].get("pop_size")
        l = self.valid_list(st, node, n)
        self.evaluated(st, st.llen[l.t]); self.counted(st, st.llen[l.t])
        return l

    def inline_single(self, st, node, d, name):
        """in the population modes a population is created agent by agent, too (by workers)"""
        fn = self.repo.method(self.cls, name)
        saved = st.objs["self"].get("mode")
        st.objs["self"]["mode"] = Const("single")
        try: return self.call_fn(fn, Obj("self", self.cls), [d["pop_size"]], {}, st, node)
        finally: st.objs["self"]["mode"] = saved

    def valid_list(self, st, node, n, evaluated=True):
        tv = self.tv(node, "pop"); unify(tv, TV("agent"))
        m = fint("n"); st.assume(m >= 0)
        if intlike(n): st.assume(m == z3.If(iterm(n) > 0, iterm(n), 0))
        l = self.newlist(st, tv, m)
        base = st.alloc
        k, x = z3.Int("k"), z3.Int("x")
        row = fresh(AI, "row")
        old = {h: getattr(st, h) for h in ("con", "sol", "tgt")}
        for h in old: setattr(st, h, fresh(AI, h))
        na = fint("alloc"); st.assume(na >= base); st.alloc = na
        for h in old: st.assume(z3.ForAll([x], z3.Implies(x < base, getattr(st, h)[x] == old[h][x]), patterns=[getattr(st, h)[x]]))
        st.wf("sol")
        inb = z3.And(0 <= k, k < m)
        f = [Feas(st.con[st.sol[row[k]]])]
        if evaluated: f.append(st.tgt[row[k]] == st.con[st.sol[row[k]]])
        self.fresh_agents(st, row, k, inb, base, na, f)
        st.lel = Store(st.lel, l.t, row)
        return l

    def c_update_target_for_population(self, st, node, d):
        if self.mode == "single" or self.overridden("get_target"): return NotImplemented
        p = self.poplist(d["pop"], st)
        if p.tv.find().kind is None: return p
        l = p.t
        self.oblige(st, "C01", "every position of the population to evaluate is feasible", over(st, l, lambda e: feasible(st, e)), node)
        T = fresh(AI, "tgt"); x, i = z3.Int("x"), z3.Int("i")
        st.assume(z3.ForAll([x], z3.Or(T[x] == st.tgt[x], T[x] == st.con[st.sol[x]]), patterns=[T[x]]))
        e = st.lel[l][i]
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < st.llen[l]), T[e] == st.con[st.sol[e]]), patterns=[e]))
        st.tgt = T
        self.evaluated(st, st.llen[l]); self.counted(st, st.llen[l])
        return p

    # ------------------------------------------------------------ externals
    def external(self, name, self_, args, kw, st, node):
        args = [a.v if isinstance(a, Opt) else a for a in args]
        kw = {k: (a.v if isinstance(a, Opt) else a) for k, a in kw.items()}
        name = name or "?"
        if name.startswith("numpy.random") or name.startswith(("generator.", "rng.", "random.")):
            return self.random(name.split(".")[-1], args, kw, st, node)
        if name.startswith(("numpy.", "scipy.", "math.")): return self.numpy(name, args, kw, st, node)
        if name.startswith("problem."): return self.problem(name[8:], args, kw, st, node)
        if name.startswith("array."): return self.arraym(name[6:], self_, args, kw, st, node)
        if name.startswith("list.") or name.startswith("dict."): return self.listm(name[5:], self_, args, kw, st, node, name.startswith("dict."))
        if name.startswith("tuple."): return self.tuplem(name[6:], self_, args, kw, st, node)
        if name.startswith("Agent."): return self.agentm(name[6:], self_, args, kw, st, node)
        if name.startswith("Target."):
            return Tgt(self_.t) if name == "Target.copy" else Any_(name)
        if name.startswith("validator."): return self.validator(name[10:], args, kw, st, node)
        if name.startswith(("logger.", "const.")): return Any_("text")
        if name == "termination.should_terminate": return BoolV(fbool("finished"))
        if name.startswith("termination."): return NONE
        if name.startswith("any."):
            for a in list(args) + list(kw.values()): self.leak(st, a)
            return Any_(name)
        if name in ("copy.deepcopy", "copy.copy", "deepcopy"): return self.deepcopy(st, args[0], node)
        if name in ("tqdm.tqdm",): return args[0]
        if name.startswith("time."): return Sca()
        if name.startswith("os."): return Sca()
        if name in ("functools.reduce", "itertools.chain"): 
            for a in args: self.leak(st, a)
            return Any_(name)
        m = getattr(self, "b_" + name, None)
        if m is not None: return m(args, kw, st, node)
        for a in list(args) + list(kw.values()): self.leak(st, a)
        if any(isinstance(a, Opq) for a in args): return Opq()
        return Any_(name)

    def deepcopy(self, st, v, node):
        if isinstance(v, Ag): return self.copy_agent(st, v.t)
        if isinstance(v, Lst):
            k = v.tv.find().kind
            if k == "agent": return self.copies(st, v, node)
            if k == "list" and v.tv.find().args[0].find().kind == "agent":
                # a copy of groups: groups of copies
                raise Unsupported("deepcopy of groups")
            if k == "sca": return self.newlist(st, v.tv, st.llen[v.t])
            return Any_("copy")
        if isinstance(v, Opq): return Opq(dim1=v.dim1, content=st.con[self.mat(st, v)])
        if isinstance(v, Tup): return Tup([self.deepcopy(st, x, node) for x in v.items], v.islist)
        return v

    # random numbers
    def size_dim(self, size):
        """-> 0 scalar, 1 one-dimensional, 2 unknown"""
        if size is None or (isinstance(size, Const) and size.v is None): return 0
        if numeric(size): return 1
        if isinstance(size, Tup): return 1 if len(size.items) == 1 else 2
        return 2

    def isbound(self, v, which): return isinstance(v, Opq) and v.t is not None and v.t.eq(LB if which == "lb" else UB)

    def random(self, m, args, kw, st, node):
        size = kw.get("size")
        if m in ("shuffle",):
            v = args[0]
            if isinstance(v, Lst): self.draw_into(st, v, [v], st.llen[v.t])
            elif isinstance(v, Opq): self.mutate(st, v)
            elif isinstance(v, Tup):
                x = [self.choose(st, v.items) for _ in v.items]
                v.items[:] = x
            return NONE
        if m == "default_rng": return Obj("generator")
        if m == "Random": return Obj("rng")
        if m in ("seed", "set_state"): return NONE
        if m in ("choice", "sample", "choices", "permutation", "permuted"):
            v = args[0] if args else kw.get("a")
            if isinstance(v, Lst) and v.tv.find().kind in ("agent", "list", "opq", "tup"):
                n = kw.get("size", args[1] if len(args) > 1 else None)
                if m in ("choice",) and self.size_dim(n) == 0: return self.anyelem(st, v)
                return self.draw(st, [v], node, None, tv=v.tv)
            if isinstance(v, Tup) and m == "choice" and self.size_dim(kw.get("size", args[1] if len(args) > 1 else None)) == 0 and v.items: return self.choose(st, v.items)
            if m == "permutation": return Opq(dim1=not (isinstance(v, Opq) and not v.dim1), content=None)
            if m == "sample": return self.newlist(st, TV("sca"))
            sz = kw.get("size", args[1] if len(args) > 1 else kw.get("k"))
            d = self.size_dim(sz)
            if isinstance(v, Opq) and not v.dim1: return Opq()
            if d == 0:
                i = fint("i")
                if intlike(v): st.assume(z3.And(0 <= i, i < iterm(v))); return IntV(i)
                if isinstance(v, Rng):
                    if intlike(v.lo): st.assume(i >= iterm(v.lo))
                    if intlike(v.hi): st.assume(i < iterm(v.hi))
                    return IntV(i)
                return Sca() if not isinstance(v, Tup) else Any_("choice")
            return Opq(dim1=d == 1)
        if m == "integers" or m == "randint":
            lo, hi = (args + [None, None])[:2]
            sz = size if size is not None else (args[2] if len(args) > 2 else None)
            if self.size_dim(sz) == 0 and all(a is None or numeric(a) for a in args):
                i = fint("i")
                if hi is None and intlike(lo): st.assume(z3.And(0 <= i, i < iterm(lo)))
                else:
                    if intlike(lo): st.assume(i >= iterm(lo))
                    if intlike(hi): st.assume(i < iterm(hi) if m == "integers" else i <= iterm(hi))
                return IntV(i)
            return Opq(dim1=self.size_dim(sz) == 1)
        if m in RAND_DIST or True:
            pos = {"random": 0, "uniform": 2, "normal": 2, "exponential": 1, "standard_normal": 0, "standard_cauchy": 0, "standard_exponential": 0}.get(m, 9)
            sz = size if size is not None else (args[pos] if len(args) > pos else None)
            d = self.size_dim(sz)
            if m == "uniform":
                lo = args[0] if args else kw.get("low"); hi = args[1] if len(args) > 1 else kw.get("high")
                lo, hi = (self.some(st, x) if isinstance(x, Opt) else x for x in (lo, hi))
                if isinstance(lo, Opq) and isinstance(hi, Opq) and (d == 0 or (d == 1 and isinstance(sz, IntV) and sz.t.eq(self.ndims))):
                    return Opq(dim1=lo.dim1 and hi.dim1, content=self.between(st, [lo, hi]))
            if d == 0:
                if all(numeric(a) for a in args) and all(numeric(a) for a in kw.values()): return Sca()
                return Opq(dim1=all(not isinstance(a, Opq) or a.dim1 for a in args))
            return Opq(dim1=d == 1)

    def between(self, st, ab):
        """a content whose coordinates lie between (or are taken from) those of the given arrays"""
        c = fint("c")
        st.assume(z3.Implies(z3.And([Feas(st.con[self.mat(st, a)]) for a in ab]), Feas(c)))
        return c

    # numpy
    def numpy(self, name, args, kw, st, node):
        m = name.split(".")[-1]
        for a in list(args) + list(kw.values()):
            if isinstance(a, Ag): raise Unsupported(f"{name} of an agent")
        arr = [a for a in list(args) + list(kw.values()) if isinstance(a, Opq)]
        lst = [a for a in list(args) + list(kw.values()) if isinstance(a, (Lst, Tup, Seq, Rng))]
        if "out" in kw and isinstance(kw["out"], Opq): self.mutate(st, kw["out"])
        if m in MUTNP and isinstance(args[0], Opq):
            self.mutate(st, args[0]); return NONE
        if m in ("array", "copy"):
            v = args[0] if args else kw.get("object")
            if isinstance(v, Lst):
                k = v.tv.find().kind
                if k in ("agent", "list") and k == "agent": raise Unsupported("array of agents")
                return Opq(dim1=k == "sca")
            if isinstance(v, Opq): return Opq(dim1=v.dim1, content=st.con[self.mat(st, v)])
            if isinstance(v, Tup): return Opq(dim1=all(numeric(x) for x in v.items))
            return Opq()
        if m in ("asarray", "atleast_1d", "ascontiguousarray", "asanyarray"):
            v = args[0]
            if isinstance(v, Opq) and v.dim1: return v
            if isinstance(v, Opq): return self.view(st, v)
            return Opq(dim1=isinstance(v, Lst) and v.tv.find().kind == "sca")
        if m in ("reshape", "ravel", "squeeze", "transpose", "atleast_2d", "expand_dims", "broadcast_to", "swapaxes", "split", "array_split"):
            v = args[0]
            return self.view(st, v) if isinstance(v, Opq) else Opq()
        if m == "clip":
            v = args[0]
            lo = args[1] if len(args) > 1 else kw.get("a_min"); hi = args[2] if len(args) > 2 else kw.get("a_max")
            if self.isbound(lo, "lb") and self.isbound(hi, "ub") and isinstance(v, (Opq, Lst, Tup)):
                # NaN apart, which correct_solution repairs; positions handed on without it need no-NaN, see C01's assumptions
                return Opq(dim1=True, feas=self.clip_feasible)
            if isinstance(lo, Opq) and isinstance(hi, Opq) and isinstance(v, (Opq, Lst, Tup)): return Opq(dim1=isinstance(v, Opq) and v.dim1 and lo.dim1 and hi.dim1, content=self.between(st, [lo, hi]))
            if numeric(v) and numeric(lo) and numeric(hi): return Sca()
            return Opq(dim1=isinstance(v, Opq) and v.dim1)
        if m in ("where", "minimum", "maximum", "fmin", "fmax"):
            ab = args[1:] if m == "where" else args
            if m == "where" and len(args) == 1: return Tup([Opq(dim1=True)], False)
            if all(isinstance(a, Opq) for a in ab) and len(ab) == 2:
                return Opq(dim1=all(a.dim1 for a in arr), content=self.between(st, ab))
            if not arr and not lst: return Sca()
            return Opq(dim1=all(a.dim1 for a in arr) and not lst)
        if m in REDUCE:
            ax = kw.get("axis", args[1] if len(args) > 1 and m not in ("dot", "percentile", "quantile", "norm", "allclose", "array_equal", "vdot", "inner", "average") else None)
            if m == "norm" and ax is None and len(args) > 2: ax = args[2]
            if ax is None or (isinstance(ax, Const) and ax.v is None):
                if m in ("dot", "inner"): return Sca() if all(a.dim1 for a in arr) and len(arr) == 2 else Opq()
                if m in ("any", "all", "allclose", "array_equal"): return BoolV(fbool("np"))
                if m in ("argmin", "argmax", "count_nonzero", "size"):
                    i = fint("i"); st.assume(i >= 0); return IntV(i)
                return Sca()
            return Opq(dim1=True) if True else Opq()
        if m in ELEM1:
            if not arr and not lst: return Sca() if not any(isinstance(a, Any_) for a in args) else Opq()
            return Opq(dim1=bool(arr) and all(a.dim1 for a in arr) and all(isinstance(l, Lst) and l.tv.find().kind == "sca" for l in lst) or (not arr and all(isinstance(l, Lst) and l.tv.find().kind == "sca" for l in lst)))
        if m in CONSTR:
            sz = args[0] if args else kw.get("shape")
            return Opq(dim1=(self.size_dim(sz) == 1 and m not in ("eye", "identity")) or m in ("arange", "linspace"))
        if m in ("concatenate", "append", "hstack", "delete", "insert", "unique", "setdiff1d", "setxor1d", "union1d", "intersect1d", "repeat", "tile", "diff", "nonzero", "flatnonzero", "random"):
            return Opq(dim1=bool(arr) and all(a.dim1 for a in arr) and not lst and "axis" not in kw and m != "tile")
        if m in ("float64", "float32", "int64", "int32", "int_", "gamma", "isscalar", "sqrt", "exp", "log", "sin", "cos", "tan", "pow", "ceil", "floor", "factorial", "comb") and not arr and not lst: return Sca()
        if not arr and not lst and args and all(numeric(a) for a in args) and name.startswith("math."): return Sca()
        return Opq()

    clip_feasible = True

    def arraym(self, m, b, args, kw, st, node):
        arr = isinstance(b, Opq)
        if m in ("copy", "flatten", "__copy__"):
            return Opq(dim1=True if m == "flatten" else b.dim1, content=st.con[self.mat(st, b)]) if arr else b
        if m == "tolist":
            if not arr: return Sca()
            if b.dim1: return self.newlist(st, TV("sca"))
            return Any_("nested list")
        if m in ("sort", "fill", "partition", "resize", "put", "itemset"):
            if arr: self.mutate(st, b)
            return NONE
        if m in ("astype", "round", "clip", "repeat", "cumsum", "argsort", "take", "conj", "__abs__"):
            if m == "clip" and len(args) >= 2 and self.isbound(args[0], "lb") and self.isbound(args[1], "ub") and arr: return Opq(dim1=True, feas=self.clip_feasible)
            return Opq(dim1=b.dim1) if arr else Sca()
        if m in ("reshape", "ravel", "squeeze", "transpose", "swapaxes", "view"): return self.view(st, b)
        if m in REDUCE:
            if "axis" in kw or args: return Opq(dim1=True)
            return BoolV(fbool("np")) if m in ("any", "all") else Sca()
        if m == "item": return Sca()
        for a in args: self.leak(st, a)
        return Opq() if arr else Sca()

    # the problem
    def problem(self, m, args, kw, st, node):
        if m == "get_target":
            c = self.feas_arg(st, args[0] if args else kw.get("solution"), "the evaluated position is feasible", node)
            self.evaluated(st, 1)
            return Tgt(c)
        if m == "generate_solution":
            e = kw.get("encoded", args[0] if args else Const(True))
            if isinstance(e, Const) and e.v is True: return Opq(dim1=True, feas=True)
            return Any_("decoded solution")
        if m == "correct_solution": return Opq(dim1=True, feas=True)
        return Any_(m)

    def validator(self, m, args, kw, st, node):
        if m == "check_int":
            v = self.param(node, I)
            b = args[2] if len(args) > 2 else kw.get("bound")
            if isinstance(b, Tup) and len(b.items) == 2:
                for k, x in enumerate(b.items):       # int() of a number between two integers
                    if isinstance(x, Const) and isinstance(x.v, int): st.assume(v >= x.v if k == 0 else v <= x.v)
                    elif isinstance(x, IntV): st.assume(v >= x.t if k == 0 else v <= x.t)
            return IntV(v)
        if m == "check_float": return Sca()
        if m == "check_bool": return BoolV(self.param(node, B))
        if m in ("check_str",):
            v = args[1] if len(args) > 1 else None
            return v if isinstance(v, Const) else Any_("text")
        if m in ("check_tuple_int", "check_tuple_float"): return Opq(dim1=True)
        if m == "check_list_tuple":
            return Any_("list")
        return Any_(m)

    def param(self, node, sort):
        k = (id(node), str(sort), "param")
        if k not in self.loops: self.loops[k] = z3.Const(f"param!{len(self.loops)}", sort)
        return self.loops[k]

    # agents
    def agentm(self, m, a, args, kw, st, node):
        r = a.t
        if m == "copy": return self.copy_agent(st, r)
        if m == "update_agent":
            d = dict(zip(("solution", "target"), args)); d.update(kw)
            self.setattr(a, "solution", d["solution"], st); self.setattr(a, "target", d["target"], st)
            return NONE
        if m in ("update", "set_kwargs"):
            if "**" in kw or args: raise Unsupported("update(**...)")
            for k, v in kw.items(): self.setattr(a, k, v, st)
            return NONE
        if m == "is_better_than": return BoolV(fbool("better"))
        if m in ("_compare_fitness",): return IntV(fint("cmp"))
        if m == "get_better_solution":
            o = args[0] if args else kw["other"]
            if not isinstance(o, Ag): raise Unsupported("get_better_solution")
            t = fint("better"); st.assume(z3.Or(t == r, t == o.t)); return Ag(t)
        if m == "sync_if_duplicate":
            o = args[0] if args else kw["other"]
            t = fint("tg"); st.assume(z3.Or(t == st.tgt[r], t == st.tgt[o.t])); st.tgt = Store(st.tgt, r, t)
            return BoolV(fbool("dup"))
        raise Unsupported(f"Agent.{m}")

    # lists
    def listm(self, m, l, args, kw, st, node, isdict):
        if isdict:
            if m in ("items", "keys", "values"):
                if m == "keys": return Seq(lambda s: Sca())
                def get(s):
                    v = self.anyelem(s, l)
                    return v if m == "values" else Tup([Sca(), v], False)
                return Seq(get)
            if m == "get": return self.anyelem(st, l)
            if m == "copy": return self.newlist(st, l.tv, st.llen[l.t], st.lel[l.t])
            if m == "pop": return self.anyelem(st, l)
            if m == "update":
                for a in args: self.leak(st, a)
                return NONE
            raise Unsupported(f"dict.{m}")
        n = st.llen[l.t]
        if m == "append": self.append(st, l, args[0]); return NONE
        if m == "extend": self.extend(st, l, args[0]); return NONE
        if m == "insert":
            x = self.literal(st, [self.bind(st, args[1])], node)
            self.draw_into(st, l, [l, x], n + 1); return NONE
        if m == "pop":
            i = args[0] if args else Const(-1)
            st.assume(n >= 1)
            if l.tv.find().kind is None: raise Dead("pop from an empty list")
            k = self.index(st, i, n)
            v = self.decode(st, st.lel[l.t][k], l.tv)
            if isinstance(i, Const) and i.v == -1: st.llen = Store(st.llen, l.t, n - 1)
            else: self.draw_into(st, l, [l], n - 1)
            return v
        if m in ("remove",): self.draw_into(st, l, [l], n - 1); return NONE
        if m == "clear": st.llen = Store(st.llen, l.t, z3.IntVal(0)); return NONE
        if m in ("sort", "reverse"):
            self.keycall(st, l, kw)
            self.draw_into(st, l, [l], n); return NONE
        if m == "copy": return self.newlist(st, l.tv, n, st.lel[l.t])
        if m in ("index", "count"):
            i = fint("i"); st.assume(z3.And(0 <= i, i < n)); return IntV(i)
        if m in ("add", "update", "discard"): return NONE
        raise Unsupported(f"list.{m}")

    def keycall(self, st, l, kw):
        k = kw.get("key")
        if k is not None and isinstance(l, Lst) and l.tv.find().kind is not None:
            x = st.clone(); mark = len(self.obls)
            try: self.call(k, [self.anyelem(x, l)], {}, x, ast.Constant(0))
            except Dead: return
            if not all(getattr(x, h).eq(getattr(st, h)) for h in ("sol", "tgt", "llen", "lel")) or len(self.obls) > mark: raise Unsupported("a key function with effects")

    def tuplem(self, m, t, args, kw, st, node):
        if m == "append":
            if not t.islist: raise Dead("tuple.append")
            t.items.append(self.bind(st, args[0])); return NONE
        if m == "copy": return Tup(t.items, True)
        if m in ("index", "count"): return IntV(fint("i"))
        if m == "extend" and isinstance(args[0], Tup): t.items.extend(args[0].items); return NONE
        if m == "pop" and t.items:
            if not args: return t.items.pop()
        raise Unsupported(f"list literal .{m}")

    # builtins
    def b_len(self, a, kw, st, node):
        v = a[0]
        if isinstance(v, Lst): return IntV(st.llen[v.t])
        if isinstance(v, Tup): return Const(len(v.items))
        if isinstance(v, Const) and isinstance(v.v, (str, tuple, list)): return Const(len(v.v))
        if isinstance(v, Rng) and isinstance(v.lo, Const) and v.lo.v == 0 and intlike(v.hi) and v.step == 1: return IntV(z3.If(iterm(v.hi) > 0, iterm(v.hi), 0))
        i = fint("len"); st.assume(i >= 0); return IntV(i)

    def b_range(self, a, kw, st, node):
        if len(a) == 1: return Rng(Const(0), a[0])
        step = a[2] if len(a) > 2 else Const(1)
        s = step.v if isinstance(step, Const) else 0
        return Rng(a[0], a[1], s)

    def b_enumerate(self, a, kw, st, node):
        v = a[0]
        if isinstance(v, Tup): return Tup([Tup([Const(i), x], False) for i, x in enumerate(v.items)], True)
        if isinstance(v, Opq): self.mat(st, v)
        if len(a) > 1 or "start" in kw:
            return Seq(lambda s: Tup([IntV(fint("i")), self.element(s, v)], False))
        def get(s):
            i = self.pos(s)
            if isinstance(v, Lst):
                s.assume(i < s.llen[v.t])
                if v.tv.find().kind is None: raise Dead("empty")
                return Tup([IntV(i), self.decode(s, s.lel[v.t][i], v.tv)], False)
            if isinstance(v, Seq) and v.length is None:
                return Tup([IntV(i), v.get(s)], False)
            return Tup([IntV(i), self.element(s, v)], False)
        return Seq(get, over=[v])

    def b_zip(self, a, kw, st, node):
        if all(isinstance(v, Tup) for v in a): return Tup([Tup(list(x), False) for x in zip(*[v.items for v in a])], True)
        for v in a:
            if isinstance(v, Opq): self.mat(st, v)
        vs = [self.literal(st, v.items, None) if isinstance(v, Tup) else v for v in a]
        def get(s):
            i = self.pos(s); out = []
            for v in vs:
                if isinstance(v, Lst):
                    s.assume(i < s.llen[v.t])
                    if v.tv.find().kind is None: raise Dead("empty")
                    out.append(self.decode(s, s.lel[v.t][i], v.tv))
                else: out.append(self.element(s, v))
            return Tup(out, False)
        return Seq(get, over=vs)

    def b_reversed(self, a, kw, st, node):
        v = a[0]
        if isinstance(v, Lst): return self.draw(st, [v], node, st.llen[v.t], tv=v.tv)
        if isinstance(v, Tup): return Tup(v.items[::-1], True)
        return v

    def b_list(self, a, kw, st, node):
        if not a: return self.literal(st, [], node)
        v = a[0]
        if isinstance(v, Tup): return Tup(v.items, True)
        return self.listof(st, v, node)
    def b_tuple(self, a, kw, st, node):
        if not a: return Tup([], False)
        v = a[0]
        if isinstance(v, Tup): return Tup(v.items, False)
        return self.listof(st, v, node)
    def b_set(self, a, kw, st, node):
        for v in a:
            if isinstance(v, Lst) and v.tv.find().kind == "agent": return self.draw(st, [v], node, None, tv=v.tv)   # (equal positions hash alike)
        return Any_("set")
    def b_frozenset(self, a, kw, st, node): return Any_("set")
    def b_dict(self, a, kw, st, node):
        for v in list(a) + list(kw.values()): self.leak(st, v)
        return Any_("dict")

    def b_sorted(self, a, kw, st, node):
        v = a[0]
        if isinstance(v, Tup): v = self.literal(st, v.items, node)
        if isinstance(v, Seq): v = self.listof(st, v)
        if isinstance(v, Lst):
            self.keycall(st, v, kw)
            if v.tv.find().isdict: return self.newlist(st, TV("sca"))
            return self.draw(st, [v], node, st.llen[v.t], tv=v.tv)
        if isinstance(v, Rng):
            return self.newlist(st, TV("sca"))
        return Any_("sorted")

    def minmax(self, a, kw, st, node):
        if len(a) == 1:
            v = a[0]
            if isinstance(v, Tup):
                if not v.items: raise Dead("min of nothing")
                if all(numeric(x) for x in v.items): return Sca()
                return self.choose(st, v.items)
            if isinstance(v, Seq): v = self.listof(st, v)
            if isinstance(v, Lst):
                self.keycall(st, v, kw)
                if v.tv.find().isdict or v.tv.find().kind is None: return Sca()
                return self.anyelem(st, v)
            return Sca() if not isinstance(v, Opq) or v.dim1 else Opq()
        if all(intlike(x) for x in a):
            r = iterm(a[0])
            for x in a[1:]: r = z3.If(iterm(x) < r, iterm(x), r) if self._min else z3.If(iterm(x) > r, iterm(x), r)
            return IntV(r)
        if all(isinstance(x, Ag) for x in a):
            return self.choose(st, a)
        if any(isinstance(x, Opq) for x in a): return Opq()
        return Sca()
    def b_min(self, a, kw, st, node): self._min = True; return self.minmax(a, kw, st, node)
    def b_max(self, a, kw, st, node): self._min = False; return self.minmax(a, kw, st, node)

    def b_sum(self, a, kw, st, node):
        v = a[0]
        if isinstance(v, Seq): v = self.listof(st, v)
        if isinstance(v, Lst):
            k = v.tv.find().kind
            if k == "sca" or k is None: return Sca()
            if k == "list":
                # sum(groups, []): the concatenation
                el = self.newlist_unknown(st, v.tv.find().args[0])
                raise Unsupported("sum of lists")
            return Opq()
        return Sca() if isinstance(v, Opq) and v.dim1 else Opq()

    def b_int(self, a, kw, st, node):
        if a and intlike(a[0]): return a[0]
        if a and isinstance(a[0], Const) and isinstance(a[0].v, (int, float)): return Const(int(a[0].v))
        return IntV(fint("int"))
    def b_float(self, a, kw, st, node): return Sca()
    def b_bool(self, a, kw, st, node): return BoolV(self.truth(st, a[0])) if a else Const(False)
    def b_str(self, a, kw, st, node): return Any_("text")
    def b_abs(self, a, kw, st, node):
        v = a[0]
        if isinstance(v, IntV): return IntV(z3.If(v.t < 0, -v.t, v.t))
        if isinstance(v, Opq): return Opq(dim1=v.dim1)
        return Sca()
    def b_round(self, a, kw, st, node):
        if isinstance(a[0], Opq): return Opq(dim1=a[0].dim1)
        return IntV(fint("round")) if len(a) == 1 else Sca()
    def b_pow(self, a, kw, st, node): return Opq() if any(isinstance(x, Opq) for x in a) else Sca()
    def b_divmod(self, a, kw, st, node): return Tup([IntV(fint("i")), IntV(fint("i"))], False)
    def b_any(self, a, kw, st, node): return BoolV(fbool("any"))
    b_all = b_any
    def b_print(self, a, kw, st, node): return NONE
    def b_type(self, a, kw, st, node): return Any_("type")
    def b_id(self, a, kw, st, node): return Sca()
    def b_callable(self, a, kw, st, node): return BoolV(fbool("callable"))
    def b_isinstance(self, a, kw, st, node):
        v, c = a
        if isinstance(v, Ag) and isinstance(c, ClsV): return Const(c.c.name == "Agent")
        if isinstance(v, (Ag, Lst)) and isinstance(c, ClsV): return Const(False)
        if isinstance(v, Obj) and isinstance(c, ClsV) and v.name in ("problem", "termination"): return Const(c.c.name.lower() == v.name)
        return BoolV(fbool("isinstance"))
    def b_hasattr(self, a, kw, st, node):
        o, n = a
        if isinstance(o, Obj) and isinstance(n, Const):
            if o.name == "self": self.reads(st, n.v, node)
            if n.v not in st.objs.get(o.name, {}): return Const(False)
        return BoolV(fbool("hasattr"))
    def b_getattr(self, a, kw, st, node):
        if isinstance(a[1], Const):
            try: return self.getattr(a[0], a[1].v, st, node)
            except Dead:
                if len(a) > 2: return a[2]
                raise
        raise Unsupported("getattr")
    def b_setattr(self, a, kw, st, node):
        if isinstance(a[1], Const): self.setattr(a[0], a[1].v, a[2], st); return NONE
        if self.curfn is not None and self.curfn.name in ("__set_keyword_arguments", "set_keyword_arguments") and isinstance(a[2], Any_): return NONE   # extra keyword arguments set no field of the search (assumption)
        raise Unsupported("setattr")
    def b_map(self, a, kw, st, node):
        f, v = a[0], a[1]
        if isinstance(v, Tup): return Tup([self.call(f, [x], {}, st, node) for x in v.items], True)
        return Seq(lambda s: self.call(f, [self.element(s, v)], {}, s, node))
    def b_filter(self, a, kw, st, node):
        v = a[1]
        if isinstance(v, Lst): return self.draw(st, [v], node, None, tv=v.tv)
        return Any_("filter")
    def b_iter(self, a, kw, st, node): return a[0]
    def b_next(self, a, kw, st, node):
        try: return self.element(st, a[0])
        except Unsupported: return Any_("next")
    def b_super(self, a, kw, st, node): return Any_("super")
    def b_vars(self, a, kw, st, node): return Any_("vars")

    # list of an iterator of agents: through a loop
    def newlist_seq(self, st, v, e):
        l = self.newlist(st, TV())
        n = fint("n"); st.assume(n >= 0)
        raise Unsupported("list of an iterator of agents")

    # ------------------------------------------------------------ the search
    def loop_end(self, node, st):
        if self.dry or not self.is_solve_loop(node): return
        d = st.objs["self"]
        p, g = d.get("pop"), d.get("g_best")
        if isinstance(p, Opt): p = p.v
        if isinstance(g, Opt): g = g.v
        if not isinstance(p, Lst) or p.tv.find().kind not in ("agent", None): raise Unsupported(f"the population is {p}")
        if not isinstance(g, Ag): raise Unsupported(f"the best agent is {g}")
        s = st.clone()
        self.epoch_obligations(s, p, node, "end of epoch")
        self.oblige(s, "C06", "end of epoch: the counter advanced by the number of objective calls", self.counter_ok(s), node)
        self.oblige(s, "C01", "end of epoch: the best agent is feasible", feasible(s, g.t), node)
        self.oblige(s, "C02", "end of epoch: the best agent carries the value of its position", s.tgt[g.t] == s.con[s.sol[g.t]], node)

    def is_solve_loop(self, node):
        return len(self.stack) == 1 and self.curfn is not None and self.curfn.name == "solve" and isinstance(node, (ast.For, ast.While))

    def epoch_obligations(self, st, p, node, when):
        st.norm()
        if p.tv.find().kind == "agent":
            self.oblige(st, "C01", f"{when}: every member of the population is feasible", over(st, p.t, lambda e: feasible(st, e)), node)
            self.oblige(st, "C02", f"{when}: every member of the population carries the value of its position", over(st, p.t, lambda e: st.tgt[e] == st.con[st.sol[e]]), node)

    def run_init(self, st):
        fn = self.repo.method(self.cls, "__init__")
        selfv = Obj("self", self.cls)
        a = fn.node.args
        names = [x.arg for x in a.args][1:]
        args = {}
        df = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for n in names:
            d = df.get(n)
            v = d.value if isinstance(d, ast.Constant) else None
            if isinstance(v, bool): args[n] = BoolV(z3.Bool("arg_" + n))
            elif isinstance(v, int): args[n] = IntV(z3.Int("arg_" + n))
            elif isinstance(v, float): args[n] = Sca()
            else: args[n] = Any_("argument " + n)
        self.call_fn(fn, selfv, [], args, st, fn.node)

    def search(self, stale=None):
        st = self.initial()
        self.ctx.append((self.cls.mod, self.cls))
        self.run_init(st)
        d = st.objs["self"]
        init = dict(d)
        for k, sh in (stale or {}).items():
            cur = d.get(k)
            sh = self.jshape(self.shape(cur), sh) if cur is not None else sh
            d[k] = self.inst(sh, st)
        keep = {"pop", "g_best", "g_worst", "problem", "generator", "rng", "logger", "history", "nfe_counter", "mode", "n_workers", "termination"}     # set by check_problem, check_mode_and_workers, check_termination
        st.objs["$init"] = {k: Const(False) for k in (stale or {}) if k not in keep}
        d["mode"] = Const(self.mode); d["termination"] = Opt(z3.Bool("no_termination"), Obj("termination"))
        solve = self.repo.method(self.cls, "solve")
        self.obls = []
        self.used_contracts = set()
        st0 = st
        args = dict(problem=Obj("problem"), mode=Const(self.mode), n_workers=Any_("n"), termination=Opt(z3.Bool("no_termination"), Obj("termination")), starting_solutions=self.start(st), seed=Any_("seed"))
        r = self.call_fn(solve, Obj("self", self.cls), [], args, st, solve.node)
        if not self.dry:
            if isinstance(r, Opt): r = r.v
            if not isinstance(r, Ag): raise Unsupported("solve returns no agent")
            s = st.clone()
            self.oblige(s, "C01", "the returned agent is feasible", feasible(s, r.t), None)
            self.oblige(s, "C02", "the returned agent carries the value of its position", s.tgt[r.t] == s.con[s.sol[r.t]], None)
        self.ctx.pop()
        # what a later search may find in the fields
        res = {}
        for k, v in st.objs["self"].items():
            if k in init and self.same(init[k], v): continue
            res[k] = self.shape(v)
        return res

    def start(self, st):
        """the starting positions, if given: a list of arrays inside the search domain (property C01 speaks about such)"""
        l = fint("starting"); n = fint("n")
        st.assume(z3.And(l >= 0, l < st.alloc, n >= 0, st.llen[l] == n))
        i = z3.Int("i"); e = st.lel[l][i]
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(e >= 0, Feas(st.con[e]))), patterns=[e]))
        return Opt(z3.Bool("no_starting_solutions"), Lst(l, self.start_tv))


def verify(repo, cls, mode, prover, annot=None):
    vc = OptVC(repo, cls, mode, prover, annot)
    vc.dry = 1
    stale = {}
    for k in range(8):
        ver = Ver.n
        res = vc.search(stale)
        new = {k2: (vc.jshape(stale[k2], s) if k2 in stale else s) for k2, s in res.items()}
        for k2 in stale: new.setdefault(k2, stale[k2])
        if new == stale and Ver.n == ver: break
        stale = new
    vc.dry = 0
    vc.search(stale)
    return vc
