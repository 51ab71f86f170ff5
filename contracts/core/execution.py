"""C08, C20 (and what C01, C02, C06 rely on): the functions of Optimizer that make and evaluate agents, in every execution mode.

OBJ(contents) is the value of the user's objective on a position with these contents, FEAS(contents) says that a position is legal.  The ghost
counter `calls` counts calls of the objective, by any worker.  An executor runs the function once per element and gives the results in the order of
the elements (map) or in any order (as_completed); a worker process works on a copy of the optimizer, a thread on the optimizer itself."""
from pydv.corelib import *
from pydv.pv import Obj, PList, Func, Unsupported, NpNum, PyExc
ASSUME = ["executors: map gives the results in the order of its arguments, as_completed in any order; a process worker works on a copy of the optimizer, a thread on the optimizer itself",
          "`nfe_counter += 1` is not interrupted (it is executed where results arrive)",
          "the objective is deterministic and does not change its argument"]
O, P = "mealpy.optimizer.Optimizer.", "mealpy.utils.problem.Problem."
OBJ = z3.Function("OBJ", V, R)
OBJS = z3.Function("OBJS", V, V)
FEAS = z3.Function("FEAS", V, B)
KIND = ("list", "tuple", "array", "other")


class StartType:
    def __init__(self, t): self.t = t


class ExecVC(CoreVC):
    FIELDS = {**CoreVC.FIELDS, "Arr": {"con": V, "len": I}, "Start": {"con": V, "len": I, "kind": I, "flat": B, "numbers": B}}
    def start(self):
        super().start(); self.ghost = Obj("ghost", calls=z3.Int("calls")); self.roots = [self.ghost]; self.counters = [(self.ghost, "calls")]; self.order = []
    def hook(self, q, f, args, kw, node):
        if q == "mealpy.utils.agent.Agent":
            d = dict(zip(("solution", "target"), args)); d.update(kw)
            s = d.get("solution")
            if set(d) - {"solution", "target"} or not isinstance(s, SymObj) or s.cls != "Arr": raise Unsupported("an agent without an array as its position")
            r = self.alloc_obj("Agent")
            self.setf(r, "solution", s); self.setf(r, "target", d.get("target")); self.setf(r, "id", self.new("id", I)); self.setf(r, "extra", self.new("extra", X))
            self.used.add("mealpy.utils.agent.Agent.__init__"); return r
        if q == P + "get_target":
            d = dict(zip(("solution",), args)); d.update(kw); s = d["solution"]
            if not isinstance(s, SymObj) or s.cls != "Arr": raise Unsupported("the objective is called on something that is not an array")
            self.ghost.f["calls"] = term(self.ghost.f["calls"]) + 1
            t = self.alloc_obj("Target"); o = self.alloc_obj("Arr")
            c = self.getf(s, "con")
            self.setf(o, "con", OBJS(c)); self.setf(t, "_objectives", o); self.setf(t, "_fitness", OBJ(c))
            self.used.add(q); return t
        if q == P + "generate_solution":
            d = dict(zip(("encoded",), args)); d.update(kw)
            if d.get("encoded", True) is not True: raise Unsupported("a solution that is not encoded")
            r = self.alloc_obj("Arr"); c = self.new("drawn", V); self.setf(r, "con", c); self.setf(r, "len", self.ndims)
            self.pc.append(FEAS(c)); self.used.add(q); return r
        if q == P + "set_seed": return None
        return super().hook(q, f, args, kw, node)
    # ---- starting positions of unknown types
    def b_type(self, a, kw):
        v = self.force(a[0])
        if isinstance(v, SymObj) and v.cls == "Start": return StartType(self.getf(v, "kind"))
        return super().b_type(a, kw)
    def eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, StartType):
                n = (y.name or "").split(".")[-1] if isinstance(y, Func) else None
                if n is None: raise Unsupported("a type")
                n = "array" if n == "ndarray" else n
                return x.t == (KIND.index(n) if n in KIND else 99)
        return super().eq(a, b)
    def isinstance_(self, v, c):
        v = self.force(v)
        if isinstance(v, SymObj) and v.cls == "Start":
            c = self.force(c)
            return z3.Or([self.eq(StartType(self.getf(v, "kind")), x) for x in (c.items if isinstance(c, PList) else [c])])
        return super().isinstance_(v, c)
    def symlen(self, v):
        if v.cls == "Start":
            self.need(self.getf(v, "kind") != 3, "TypeError")
            return self.getf(v, "len")
        if v.cls == "Arr": return self.getf(v, "len")
        raise Unsupported("len")
    def np_shape(self, a, kw):
        """of a starting position: (n,) for n numbers"""
        v = self.force(a[0])
        if isinstance(v, SymObj) and v.cls in ("Start", "Arr"): return PList("tuple", [Shape(z3.BoolVal(True) if v.cls == "Arr" else z3.And(self.getf(v, "flat"), self.getf(v, "kind") != 3), self.getf(v, "len"))])
        raise Unsupported("shape")
    def np_array(self, a, kw):
        v = self.force(a[0])
        if isinstance(v, SymObj) and v.cls in ("Start", "Arr"):
            if v.cls == "Start": self.need(z3.And(self.getf(v, "numbers"), self.getf(v, "kind") != 3), "ValueError")
            r = self.alloc_obj("Arr"); self.setf(r, "con", self.getf(v, "con")); self.setf(r, "len", self.getf(v, "len")); return r
        return super().np_array(a, kw)
    np_asarray = np_array
    # ---- executors
    def ext_hook(self, name, self_, args, kw, node):
        if name.endswith(("ThreadPoolExecutor", "ProcessPoolExecutor")): return Obj("Executor", process="Process" in name)
        if name == "future.result": return self_.items[0]
        if name.endswith("as_completed"): return self.completed(args[0])
        return super().ext_hook(name, self_, args, kw, node)
    def completed(self, l):
        l = self.iterable(self.force(l))
        p, q = self.permutation(term(l.n))
        self.order.append((p, q))
        return PList("list", n=term(l.n), get=lambda i: l.get(p(term(i))))
    def worker(self, ex, f, args):
        if not isinstance(f, Func): raise Unsupported("a task")
        if not ex.f["process"]: return self.call(f, list(args), {})
        o = f.self_
        if not isinstance(o, Obj): raise Unsupported("a task of a process")
        w = self.copied(o)
        def arr(v):
            v = self.force(v)
            if isinstance(v, SymObj) and v.cls == "Arr":
                r = self.alloc_obj("Arr"); self.setf(r, "con", self.getf(v, "con")); self.setf(r, "len", self.getf(v, "len")); return r
            return v
        return self.call(Func(f.fn, w, f.name, f.lam, f.env, f.mod, f.cls, f.part), [arr(v) for v in args], {})
    def copied(self, o):
        w = Obj(o.cls); w.birth = self.nested
        for k, v in o.f.items(): w.f[k] = self.copied(v) if k in ("problem", "generator", "rng") and isinstance(v, Obj) else v
        return w
    def x_Executor_map(self, ex, a, kw):
        ls = [self.iterable(self.force(x)) for x in a[1:]]
        z = self.b_zip(ls, {})
        return self.mapseq(z, lambda t: self.worker(ex, a[0], t.items))
    def x_Executor_submit(self, ex, a, kw):
        return PList("future", [self.worker(ex, a[0], a[1:])])
    def x_Executor_shutdown(self, ex, a, kw): return None
    def x_numpy_random_default_rng(self, o, a, kw): return Obj("Generator")
    def x_random_Random(self, o, a, kw): return Obj("Random")
    def seqsum(self, v):
        """of equal numbers"""
        e = v.get(z3.Int("i?"))
        e = z3.simplify(term(e)) if not isinstance(e, int) else z3.IntVal(e)
        if z3.is_int_value(e): return e * term(v.n)
        return super().seqsum(v)
    def deepcopy(self, v):
        v = self.force(v)
        if isinstance(v, Obj) and v.cls in ("Generator", "Random"): return Obj(v.cls)
        return super().deepcopy(v)


class Shape:
    """the first entry of a shape: n when the array has one dimension, else no number"""
    def __init__(self, ok, n): self.ok, self.n = ok, n
def _eq(self, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Shape): return z3.And(x.ok, x.n == term(y))
    return ExecVC._eq0(self, a, b)
ExecVC._eq0, ExecVC.eq = ExecVC.eq, _eq


def theopt(vc):
    p = problem(vc); vc.ndims = p.f["n_dims"]; p.f.pop("$open", None)
    o = optimizer(vc, problem=p)
    vc.assume(o.f["pop_size"] <= 10000)
    vc.counters.append((o, "nfe_counter"))
    return o
def counted(vc, a, old, n):
    o = a["self"]
    return [("one call of the objective per agent", term(vc.ghost.f["calls"]) == old["calls"] + n), ("one evaluation counted per agent", term(o.f["nfe_counter"]) == old["nfe"] + n)]
def evaluated(vc, p):
    """agent p carries the target of its own position"""
    return z3.And(vc.fit(p) == OBJ(vc.con(p)), vc.getf(vc.getf(vc.getf(p, "target"), "_objectives"), "con") == OBJS(vc.con(p)))


class ExecContract(Contract):
    props, make, proof_only, uses = ("C08",), ExecVC, True, ()
    def snapshot(self, vc, a): return dict(maps=dict(vc.maps), alloc=vc.alloc, calls=vc.ghost.f["calls"], nfe=a["self"].f["nfe_counter"], pop=a["self"].f["pop"], fields={k: v for k, v in a["self"].f.items() if k not in ("nfe_counter", "pop")})
    def kept(self, vc, a, old):
        f = a["self"].f
        ch = [k for k in set(f) | set(old["fields"]) if k not in ("nfe_counter", "pop") and f.get(k, f) is not old["fields"].get(k, f)]
        return [("no other field of the optimizer changes", z3.BoolVal(not ch))]
    def new(self, vc, p, old): return z3.And(p.t >= old["alloc"], p.t < vc.alloc, vc.getf(p, "solution").t >= old["alloc"], vc.getf(p, "target").t >= old["alloc"])


class UpdatePop(ExecContract):
    target, props = O + "update_target_for_population", ("C08", "C02", "C06")
    tags = (("counted", ("C08", "C06")), ("call of the objective", ("C08", "C06")), ("own position", ("C08", "C02")), ("left as it is", ("C08", "C02")))
    def args(self, vc):
        o = theopt(vc)
        k = vc.choice(4)
        o.f["mode"] = ("thread", "process", "swarm", "single")[k] if k < 3 else z3.String("mode")
        if k == 3: vc.assume(z3.And([o.f["mode"] != z3.StringVal(m) for m in ("thread", "process", "swarm")]))
        return {"self": o, "pop": vc.population("pop"), "$k": k}
    def ensures(self, vc, a, old, r):
        pop = a["pop"]
        g = [("the same population is returned, its agents in their order", z3.BoolVal(r is pop) if not isinstance(r, PList) else z3.And(term(r.n) == term(pop.n), forall(pop.n, lambda i: r.get(i).t == pop.get(i).t))),
             ("every agent keeps its position", z3.And(forall(pop.n, lambda i: z3.And(vc.getf(pop.get(i), "solution").t == vc.getf(pop.get(i), "solution", old["maps"]).t, vc.con(pop.get(i)) == vc.con(pop.get(i), old["maps"])))))]
        g += self.kept(vc, a, old)
        if a["$k"] == 3: return g + [("in the other modes the population is left as it is", z3.And(vc.unchanged(old), term(vc.ghost.f["calls"]) == old["calls"])), ("nothing is counted in the other modes", term(a["self"].f["nfe_counter"]) == old["nfe"])]
        return g + counted(vc, a, old, term(pop.n)) + [("every agent carries the target of its own position", forall(pop.n, lambda i: evaluated(vc, pop.get(i)))), ("only targets of members change", others(vc, old, pop))]
def others(vc, old, pop, n=None):
    n = pop.n if n is None else n
    gs = []
    for k, m in vc.maps.items():
        o = old["maps"].get(k)
        if o is None: o = z3.Const(f"{k}!0", m.sort())
        if z3.eq(o, m): continue
        c = z3.ForAll([i_], z3.Implies(i_ < old["alloc"], m[i_] == o[i_]))
        if k == "Agent.target": c = z3.ForAll([i_], z3.Implies(z3.And(i_ < old["alloc"], z3.Not(z3.Exists([k_], z3.And(0 <= k_, k_ < n, pop.get(k_).t == i_)))), m[i_] == o[i_]))
        gs.append(c)
    return z3.And([z3.BoolVal(True)] + gs)
def upd_goals(vc, env, k, n):
    pop, o0 = env["pop"], vc.loop0
    k = term(k)
    g = [("the agents before carry the target of their own position", z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < k), evaluated(vc, pop.get(i_)))))]
    for key in ("Agent.solution", "Arr.con", "Target._fitness", "Target._objectives", "Arr.len"):
        m, m0 = vc.maps[key], o0["maps"][key]
        g.append((f"{key} of what existed stays", z3.ForAll([i_], z3.Implies(i_ < o0["alloc"], m[i_] == m0[i_]), patterns=[m[i_]])))
    g.append(("only targets of members change", others(vc, o0, pop)))
    t = lambda i: vc.getf(pop.get(i), "target")
    g.append(("their targets exist", z3.And(vc.alloc >= o0["alloc"], z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < k), z3.And(t(i_).t < vc.alloc, vc.getf(t(i_), "_objectives").t < vc.alloc))))))
    c = vc.ghost.f["calls"]
    if a_swarm(env): g += [("one call of the objective per agent", term(c) == vc.loop0["calls"] + k)]
    return g
def a_swarm(env): return env["self"].f["mode"] == "swarm"
def upd_havoc(vc, env):
    if a_swarm(env): vc.ghost.f["calls"] = vc.new("calls", I); vc.advance()
    for key in ("Agent.target",) + (("Target._fitness", "Target._objectives", "Arr.con", "Arr.len", "Target._weights") if a_swarm(env) else ()): vc.maps[key] = vc.new(key, vc.maps[key].sort())
class UpdInv(Inv):
    def goals(self, vc, env, k, n):
        if isinstance(k, int) and k == 0: vc.loop0 = dict(maps=dict(vc.maps), alloc=vc.alloc, calls=vc.ghost.f["calls"])
        return super().goals(vc, env, k, n)
_U = UpdInv(upd_goals, upd_havoc)
UpdatePop.loops = {k: _U for k in range(6)}


class Generate(ExecContract):
    target, props = O + "generate_population", ("C08", "C02", "C01", "C06")
    tags = (("counted", ("C08", "C06")), ("call of the objective", ("C08", "C06")), ("own position", ("C08", "C02")), ("feasible", ("C08", "C01")), ("", ("C08",)))
    def args(self, vc):
        o = theopt(vc)
        k = vc.choice(3)
        o.f["mode"] = ("thread", "process")[k] if k < 2 else z3.String("mode")
        if k == 2: vc.assume(z3.And([o.f["mode"] != z3.StringVal(m) for m in ("thread", "process")]))
        ps = None if vc.choice(2) else z3.Int("pop_size")
        if ps is not None: vc.assume(z3.And(ps >= 0, ps <= 10000))
        return {"self": o, "pop_size": ps}
    def ensures(self, vc, a, old, r):
        n = term(a["pop_size"] if a["pop_size"] is not None else a["self"].f["pop_size"])
        return self.kept(vc, a, old) + counted(vc, a, old, n) + [("as many agents as asked for", term(r.n) == n),
            ("every agent carries the target of its own position", forall(n, lambda i: evaluated(vc, r.get(i)))), ("every position is feasible", forall(n, lambda i: FEAS(vc.con(r.get(i))))),
            ("new agents, pairwise different", z3.And(forall(n, lambda i: self.new(vc, r.get(i), old)), forall2(n, lambda i, k: z3.And(r.get(i).t != r.get(k).t, vc.getf(r.get(i), "solution").t != vc.getf(r.get(k), "solution").t, vc.getf(r.get(i), "target").t != vc.getf(r.get(k), "target").t)))),
            ("nothing is modified", vc.unchanged(old)), ("the population of the optimizer stays", z3.BoolVal(a["self"].f["pop"] is old["pop"]))]


class GenerateAgent(ExecContract):
    target, props = O + "generate_agent", ("C08", "C20", "C02")
    def args(self, vc):
        o = theopt(vc)
        s = None
        if vc.choice(2): s = SymObj(z3.Int("solution"), "Arr"); vc.assume(z3.And(s.t >= 0, s.t < vc.alloc))
        return {"self": o, "solution": s}
    def ensures(self, vc, a, old, r):
        s = a["solution"]
        return self.kept(vc, a, old) + counted(vc, a, old, 1) + [("the agent carries the target of its own position", evaluated(vc, r)), ("nothing is modified", vc.unchanged(old)), ("a new agent", z3.And(r.t >= old["alloc"], r.t < vc.alloc)),
            ("at a feasible position" if s is None else "at the given position", FEAS(vc.con(r)) if s is None else vc.con(r) == vc.con_of(s, old["maps"]))]
ExecVC.con_of = lambda self, s, maps=None: self.getf(s, "con", maps)


class GetTarget(ExecContract):
    target, props = O + "get_target", ("C08", "C06", "C02")
    def args(self, vc):
        o = theopt(vc); s = SymObj(z3.Int("solution"), "Arr"); vc.assume(z3.And(s.t >= 0, s.t < vc.alloc))
        return {"self": o, "solution": s, "counted": (True, False)[vc.choice(2)]}
    def ensures(self, vc, a, old, r):
        c = vc.con_of(a["solution"], old["maps"])
        return self.kept(vc, a, old) + [("one call of the objective", term(vc.ghost.f["calls"]) == old["calls"] + 1), ("counted when asked for", term(a["self"].f["nfe_counter"]) == old["nfe"] + (1 if a["counted"] else 0)),
            ("the value of the objective on the position", z3.And(vc.getf(r, "_fitness") == OBJ(c), vc.getf(vc.getf(r, "_objectives"), "con") == OBJS(c))), ("nothing is modified", vc.unchanged(old))]


class Before(ExecContract):
    target, props = O + "before_initialization", ("C20",)
    exc = ("ValueError",)
    def args(self, vc):
        o = theopt(vc)
        k = vc.choice(3)
        o.f["mode"] = ("thread", "process")[k] if k < 2 else z3.String("mode")
        if k == 2: vc.assume(z3.And([o.f["mode"] != z3.StringVal(m) for m in ("thread", "process")]))
        o.f["pop"] = None
        k = vc.choice(6)
        if k == 0: return {"self": o, "starting_solutions": None, "$ok": None}
        if k < 4:
            f = z3.Function("start.at", I, I); n = z3.Int("start.len"); vc.assume(n >= 0)
            vc.assume(z3.ForAll([i_], z3.And(f(i_) >= 0, f(i_) < vc.alloc), patterns=[f(i_)]))
            l = PList(("list", "tuple", "array")[k - 1], n=n, get=lambda i: SymObj(f(term(i)), "Start"))
            g = lambda a, i: vc.getf(l.get(i), a)
            vc.assume(forall(n, lambda i: z3.And(0 <= g("kind", i), g("kind", i) <= 3, g("len", i) >= 0)))
            ok = z3.And(n == o.f["pop_size"], forall(n, lambda i: z3.And(g("kind", i) <= 2, g("flat", i), g("len", i) == vc.ndims, g("numbers", i))))
            return {"self": o, "starting_solutions": l, "$ok": ok}
        return {"self": o, "starting_solutions": Opaque("object") if k == 4 else z3.Int("start.int"), "$ok": z3.BoolVal(False)}
    def raises(self, vc, a): return None if a["$ok"] is None else z3.Not(a["$ok"])
    def exceptional(self, vc, a, old, e):
        return [("ValueError only for bad starting solutions", z3.And(z3.BoolVal(e.kind == "ValueError"), z3.BoolVal(False) if a["$ok"] is None else z3.Not(a["$ok"]))), ("nothing is evaluated before the rejection", term(vc.ghost.f["calls"]) == old["calls"])]
    def ensures(self, vc, a, old, r):
        o, l = a["self"], a["starting_solutions"]
        if l is None: return self.kept(vc, a, old) + counted(vc, a, old, 0) + [("no population is made", z3.BoolVal(o.f["pop"] is None))]
        p = o.f["pop"]
        if not isinstance(p, PList) or p.kind != "list": return [("the population is a list", z3.BoolVal(False))]
        return self.kept(vc, a, old) + counted(vc, a, old, term(l.n)) + [("one agent per starting solution", term(p.n) == term(l.n)),
            ("at exactly these positions, in their order", forall(l.n, lambda i: z3.And(vc.con(p.get(i)) == vc.getf(l.get(i), "con", old["maps"]), vc.getf(vc.getf(p.get(i), "solution"), "len") == vc.getf(l.get(i), "len", old["maps"])))),
            ("every agent carries the target of its own position", forall(l.n, lambda i: evaluated(vc, p.get(i)))), ("new agents with positions of their own", forall(l.n, lambda i: self.new(vc, p.get(i), old))), ("nothing is modified", vc.unchanged(old))]


class Initialization(ExecContract):
    """the population made from starting solutions is kept"""
    target, props = O + "initialization", ("C20", "C08")
    def args(self, vc):
        o = theopt(vc); o.f["pop"] = None if vc.choice(2) else vc.population("pop")
        o.f["mode"] = ("thread", "process", "single")[vc.choice(3)]
        return {"self": o}
    def ensures(self, vc, a, old, r):
        p, n = a["self"].f["pop"], a["self"].f["pop_size"]
        if old["pop"] is not None: return self.kept(vc, a, old) + counted(vc, a, old, 0) + [("the population from the starting solutions is kept", z3.BoolVal(p is old["pop"])), ("nothing is modified", vc.unchanged(old))]
        return self.kept(vc, a, old) + counted(vc, a, old, n) + [("a full population is made", term(p.n) == n), ("every agent carries the target of its own position", forall(n, lambda i: evaluated(vc, p.get(i)))), ("every position is feasible", forall(n, lambda i: FEAS(vc.con(p.get(i)))))]

CONTRACTS = [UpdatePop, Generate, GenerateAgent, GetTarget, Before, Initialization]
