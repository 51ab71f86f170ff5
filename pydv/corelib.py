"""The environment of the core contracts: field maps of agents and targets, contracts of NumPy, random generators and other externals."""
import ast, z3
from .pv import *
from . import pv

V = z3.DeclareSort("Contents")       # contents of an array
X = z3.DeclareSort("Extra")          # the extra attributes of an agent
i_, k_ = z3.Int("i?"), z3.Int("k?")


def forall(n, body, vs=None):
    """body(i) for 0 <= i < n"""
    b = body(i_)
    if isinstance(b, bool): b = z3.BoolVal(b)
    return z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < n), b))
def forall2(n, body):
    """body(i, k) for 0 <= i < k < n"""
    return z3.ForAll([i_, k_], z3.Implies(z3.And(0 <= i_, i_ < k_, k_ < n), body(i_, k_)))


def triggers(key):
    """the element of the sequence as a pattern, where it can be one"""
    if key is None: return []
    t = key(i_)
    def ok(x):
        return x.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) and all(ok(c) for c in x.children())
    has = lambda x: z3.eq(x, i_) or any(has(c) for c in x.children())
    return [t] if not z3.is_quantifier(t) and t.num_args() and ok(t) and has(t) else []


class CoreVC(VC):
    FIELDS = {"Agent": {"solution": "Arr", "target": "Target", "id": I, "extra": X},
              "Arr": {"con": V},
              "Target": {"_fitness": R, "_objectives": "Arr", "_weights": "Arr"}}
    CLASSES = {"Agent": "mealpy.utils.agent.Agent", "Target": "mealpy.utils.target.Target"}

    def symattr(self, b, a):
        if a in self.FIELDS.get(b.cls, {}): return self.getf(b, a)
        if b.cls == "Arr":
            if a == "copy": return Func(name="Arr.copy", self_=b)
            return NotImplemented
        if b.cls in self.CLASSES:
            c = self.repo.cls(self.CLASSES[b.cls])
            m = self.repo.method(c, a)
            if m is not None:
                if m.prop: return self.call(Func(fn=m, self_=b), [], {})
                return Func(fn=m, self_=b if not m.classmeth else c)
        return NotImplemented
    def typename(self, v):
        v = self.force(v)
        if isinstance(v, SymObj):
            if v.cls in self.CLASSES: return self.repo.cls(self.CLASSES[v.cls])
            if v.cls == "Arr": return "ndarray"
        return super().typename(v)

    # ---- the spec language
    def fit(self, a, maps=None):
        """fitness of an agent"""
        return self.getf(self.getf(a, "target", maps), "_fitness", maps)
    def con(self, a, maps=None): return self.getf(self.getf(a, "solution", maps), "con", maps)
    def better_eq(self, minmax, x, y):
        return z3.If(term(minmax) == z3.StringVal("min"), x <= y, x >= y)
    def better(self, minmax, x, y):
        return z3.If(term(minmax) == z3.StringVal("min"), x < y, x > y)
    def unchanged(self, old):
        """nothing that existed before is changed"""
        gs = []
        for k, m in self.maps.items():
            o = old["maps"].get(k)
            if o is None: o = z3.Const(f"{k}!0", m.sort())
            if not z3.eq(o, m): gs.append(z3.ForAll([i_], z3.Implies(i_ < old["alloc"], m[i_] == o[i_])))
        return z3.And([z3.BoolVal(True)] + gs)
    def population(self, name, n=None, minlen=0):
        f = z3.Function(name + ".at", I, I)
        n = z3.Int(name + ".len") if n is None else n
        self.pc.append(n >= minlen)
        self.pc.append(z3.ForAll([i_], z3.And(f(i_) >= 0, f(i_) < self.alloc), patterns=[f(i_)]))
        return PList("list", n=n, get=lambda i: SymObj(f(term(i)), "Agent"))
    def fresh_population(self, name, n):
        f = self.newfun(name, I, I)
        return PList("list", n=n, get=lambda i: SymObj(f(term(i)), "Agent"))
    def agent(self, name):
        t = z3.Int(name)
        self.pc.append(z3.And(t >= 0, t < self.alloc))
        return SymObj(t, "Agent")
    def minmax(self):
        s = z3.String("minmax")
        self.pc.append(z3.Or(s == z3.StringVal("min"), s == z3.StringVal("max")))
        return s
    def wf(self):
        """references in fields of existing objects are existing objects"""
        for c, fs in self.FIELDS.items():
            for a, so in fs.items():
                if isinstance(so, str):
                    m = self.map(c, a)
                    self.pc.append(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < self.alloc), z3.And(m[i_] >= 0, m[i_] < self.alloc)), patterns=[m[i_]]))
    def start(self):
        super().start()
        for c, fs in self.FIELDS.items():
            for a in fs: self.maps[f"{c}.{a}"] = self.map(c, a)
        self.wf()

    def advance(self, name="alloc"):
        """an unknown number of objects may have been made"""
        a = self.new(name, I); self.pc.append(a >= self.alloc); self.alloc = a
    def havoc_new(self, old):
        """maps after a call that only makes new objects"""
        self.advance()
        for k in list(self.maps):
            o = self.maps[k]
            n = self.new(k, o.sort()); self.maps[k] = n
            self.pc.append(z3.ForAll([i_], z3.Implies(i_ < old, n[i_] == o[i_]), patterns=[n[i_]]))
        for c, fs in self.FIELDS.items():
            for a, so in fs.items():
                if isinstance(so, str):
                    m = self.maps[f"{c}.{a}"]
                    self.pc.append(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < self.alloc), z3.And(m[i_] >= 0, m[i_] < self.alloc)), patterns=[m[i_]]))

    def hook(self, q, f, args, kw, node):
        if q == "mealpy.utils.logger.Logger": return Obj("Logger")
        return NotImplemented
    # ---- externals
    def ext_hook(self, name, self_, args, kw, node):
        m = getattr(self, "x_" + name.replace(".", "_"), None)
        if m is not None: return m(self_, args, kw)
        if name.startswith("Generator."):
            m = getattr(self, "rng_" + name.split(".", 1)[1], None)
            if m is None: raise Unsupported(name)
            return m(args, kw)
        if name == "Logger.create_logger": return Obj("Logger")
        if name.startswith("Logger."): return None
        return NotImplemented

    def x_Arr_copy(self, o, a, kw):
        r = self.alloc_obj("Arr")
        self.setf(r, "con", self.getf(o, "con"))
        return r
    def seqsum(self, v): return self.new("sum", R)
    def permutation(self, n, key=None):
        """-> (p, inverse): p is a permutation of range(n)"""
        p, q = self.newfun("perm", I, I), self.newfun("perminv", I, I)
        self.assume(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < n), z3.And(0 <= p(i_), p(i_) < n, q(p(i_)) == i_)), patterns=[p(i_)]))
        self.assume(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < n), z3.And(0 <= q(i_), q(i_) < n, p(q(i_)) == i_)), patterns=[q(i_)] + triggers(key)))
        return p, q
    def np_argsort(self, a, kw):
        v = self.seq(a[0])
        n = term(v.n)
        key = lambda i: real(v.get(i))
        p, q = self.permutation(n, key)
        self.assume(z3.ForAll([i_, k_], z3.Implies(z3.And(0 <= i_, i_ <= k_, k_ < n), key(p(i_)) <= key(p(k_))), patterns=[z3.MultiPattern(p(i_), p(k_))]))
        return PList("array", n=n, get=lambda i: p(term(i)))
    def sort(self, v, key, reverse):
        n = term(v.n)
        kf = (lambda x: self.call(key, [x], {})) if key is not None else (lambda x: x)
        ks = self.mapseq(v, kf)
        g = lambda i: real(ks.get(i))
        p, q = self.permutation(n, g)
        if isz(reverse): reverse = self.branch(reverse)
        self.assume(z3.ForAll([i_, k_], z3.Implies(z3.And(0 <= i_, i_ <= k_, k_ < n), g(p(i_)) >= g(p(k_)) if reverse else g(p(i_)) <= g(p(k_))), patterns=[z3.MultiPattern(p(i_), p(k_))]))
        return PList("list", n=n, get=lambda i: v.get(p(term(i))))
    def fancy(self, b, i):
        if i.items is None:
            e = i.get(z3.Int("i?"))
            if isz(e) and e.sort() == I:
                self.assume_in(i, b.n)
                return PList("array", n=i.n, get=lambda x: b.get(i.get(x)))
            if isz(e) and e.sort() == B:
                j = self.np_nonzero([i], {}).items[0]
                return PList("array", n=j.n, get=lambda x: b.get(j.get(x)))
        raise Unsupported("fancy index")
    def assume_in(self, i, n):
        # reading outside raises IndexError
        self.need(forall(i.n, lambda k: z3.And(i.get(k) >= 0, i.get(k) < n)), "IndexError")

    # random generator: every value allowed by the documented range of the method
    def rng_choice(self, args, kw):
        """generator.choice(a, size=None, replace=True, p=None)"""
        names = ["a", "size", "replace", "p"]
        d = dict(zip(names, args)); d.update(kw)
        a, size, replace, p = self.force(d["a"]), self.force(d.get("size")), d.get("replace", True), d.get("p")
        if isinstance(a, NpNum): a = a.v
        if isinstance(a, Rng): a = self.iterable(a)
        if isinstance(a, PList): n, at = term(a.n), a.get
        else: n, at = intt(a), lambda i: i
        if size is None:
            self.need(n > 0, "ValueError")
            c = self.new("choice", I); self.assume(z3.And(0 <= c, c < n))
            if p is not None: self.assume(real(self.seq(p).get(c)) > 0)
            return at(c)
        size = intt(size)
        self.need(size >= 0, "ValueError")
        self.need(z3.Or(n > 0, size == 0), "ValueError")
        rep = self.truth(replace)
        f = self.newfun("choice", I, I)
        self.assume(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < size), z3.And(0 <= f(i_), f(i_) < n)), patterns=[f(i_)]))
        if not rep:
            self.need(size <= n, "ValueError")
            g = self.newfun("choiceinv", I, I)
            self.assume(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < size), g(f(i_)) == i_), patterns=[f(i_)]))
        r = PList("array", n=size, get=lambda i: at(f(term(i))))
        r.draw = f
        return r
    def rng_integers(self, args, kw):
        d = dict(zip(["low", "high", "size"], args)); d.update(kw)
        lo, hi = (0, d["low"]) if d.get("high") is None else (d["low"], d["high"])
        lo, hi = intt(lo), intt(hi)
        if d.get("size") is not None: raise Unsupported("integers with a size")
        self.need(lo < hi, "ValueError")
        c = self.new("integers", I); self.assume(z3.And(lo <= c, c < hi))
        return c
    def rng_random(self, args, kw):
        if args or kw: raise Unsupported("random with a size")
        c = self.new("random", R); self.assume(z3.And(0 <= c, c < 1)); return c

    def x_num_item(self, o, a, kw): return o
    def l_item(self, l, a, kw):
        """array.item()"""
        self.need(term(l.n) == 1, "ValueError")
        return l.get(0)
    def np_ptp(self, a, kw):
        v = self.seq(a[0])
        return self.extreme_of([v], {}, False) - self.extreme_of([v], {}, True)
    def np_nonzero(self, a, kw):
        v = self.seq(a[0])
        n = term(v.n)
        m = self.new("count", I); f = self.newfun("nonzero", I, I); g = self.newfun("nonzeroinv", I, I)
        self.assume(z3.And(m >= 0, m <= n))
        self.assume(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < m), z3.And(0 <= f(i_), f(i_) < n, term(v.get(f(i_))), g(f(i_)) == i_)), patterns=[f(i_)]))
        self.assume(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < n, term(v.get(i_))), z3.And(0 <= g(i_), g(i_) < m, f(g(i_)) == i_)), patterns=[g(i_)]))
        r = PList("array", n=m, get=lambda i: f(term(i)))
        r.inv = g
        return PList("tuple", [r])


class AgentCopy(Contract):
    """of Agent.copy, in the field-map encoding (the body is verified in the object encoding: contracts of agent.py)"""
    target = "mealpy.utils.agent.Agent.copy"
    encoded = True
    def havoc_call(self, vc, a):
        o = a["self"]
        if not isinstance(o, SymObj): raise Unsupported("copy of an agent in the object encoding")
        r = vc.alloc_obj("Agent"); s = vc.alloc_obj("Arr"); t = vc.alloc_obj("Target"); ob = vc.alloc_obj("Arr"); 
        vc.setf(s, "con", vc.getf(vc.getf(o, "solution"), "con"))
        vc.setf(r, "solution", s)
        ot = vc.getf(o, "target")
        vc.setf(ob, "con", vc.getf(vc.getf(ot, "_objectives"), "con"))
        vc.setf(t, "_objectives", ob); vc.setf(t, "_weights", vc.getf(ot, "_weights")); vc.setf(t, "_fitness", vc.getf(ot, "_fitness"))
        vc.setf(r, "target", t); vc.setf(r, "extra", vc.getf(o, "extra"))
        i = vc.new("id", I); vc.setf(r, "id", i)
        return r


# ------------------------------------------------------------------------------------------------ the optimizer object
AG_LISTS = ("list_global_best", "list_current_best", "list_global_worst", "list_current_worst")
NUM_LISTS = ("list_epoch_time", "list_global_best_fit", "list_current_best_fit", "list_diversity")
OTHER_LISTS = ("list_population", "list_exploration", "list_exploitation")
HIST = AG_LISTS + NUM_LISTS + OTHER_LISTS


def copylist(l):
    r = PList(l.kind, list(l.items) if l.items is not None else None, n=l._n, get=l._get)
    return r


def history(vc, name, n=None, lens=None):
    """a History with unknown contents"""
    h = Obj(vc.repo.cls("mealpy.utils.history.History"))
    for l in HIST:
        m = z3.Int(f"{name}.{l}.len"); vc.pc.append(m >= 0)
        if l in AG_LISTS: h.f[l] = vc.population(f"{name}.{l}", m)
        else:
            f = z3.Function(f"{name}.{l}.at", I, R)
            h.f[l] = PList("list", n=m, get=(lambda i, f=f: f(term(i))))
    h.f["epoch"] = None; h.f["logger"] = Obj("Logger")
    return h


def hsnap(h): return {l: copylist(h.f[l]) for l in HIST if isinstance(h.f.get(l), PList)}


def problem(vc, name="problem"):
    p = Obj(vc.repo.cls("mealpy.utils.problem.Problem"))
    nd = z3.Int(name + ".n_dims"); vc.pc.append(nd >= 1)
    s = vc.minmax()
    p.f.update(minmax=s, n_dims=nd, save_population=z3.Bool(name + ".save_population"), log_to=z3.String(name + ".log_to"), log_file=z3.String(name + ".log_file"), name=z3.String(name + ".name"), logger=Obj("Logger"),
               seed=z3.Int(name + ".seed"), obj_weights=Opaque("weights"), lb=Opaque("lb"), ub=Opaque("ub"))
    p.f["$open"] = True
    return p


def optimizer(vc, **over):
    o = Obj(vc.repo.cls("mealpy.optimizer.Optimizer"))
    ep, ps = z3.Int("self.epoch"), z3.Int("self.pop_size")
    vc.pc += [ep >= 1, ps >= 1]
    o.f.update(epoch=ep, pop_size=ps, mode=z3.String("self.mode"), n_workers=z3.Int("self.n_workers"), sort_flag=z3.Bool("self.sort_flag"), nfe_counter=z3.Int("self.nfe_counter"), name=z3.String("self.name"),
               generator=Obj("Generator"), rng=Obj("Random"), logger=Obj("Logger"), validator=Obj(vc.repo.cls("mealpy.utils.validator.Validator")), is_parallelizable=z3.Bool("self.is_parallelizable"), unsaved_best=None, unsaved_worst=None, termination=None, g_best=None, g_worst=None, pop=None)
    o.f.update(over)
    return o


class Inv:
    """a loop invariant: f(vc, env, k, n) -> [(name, term)]; the modified locals (and what havoc names) get unknown values"""
    def __init__(self, f, havoc=None): self.f, self.h = f, havoc
    def goals(self, vc, env, k, n):
        try: return self.f(vc, env, k, n)
        except (KeyError, AttributeError) as e: raise Unsupported(f"the invariant does not fit the loop: {e!r}")
    def havoc(self, vc, env, modified):
        for x in sorted(modified):
            if x in env: env[x] = unknown_like(vc, x, env[x])
        if self.h: self.h(vc, env)


def unknown_like(vc, x, v):
    if isinstance(v, bool): return vc.new(x, B)
    if isinstance(v, int): return vc.new(x, I)
    if isinstance(v, float): return vc.new(x, R)
    if isz(v): return vc.new(x, v.sort())
    if isinstance(v, SymObj): return SymObj(vc.new(x, I), v.cls)
    if isinstance(v, PList):
        e = None
        if v.items is None: e = v.get(z3.Int("i?"))
        elif v.items: e = v.items[0]
        n = vc.new(x + ".len", I); vc.assume(n >= 0)
        if e is None: return PList(v.kind, n=n, get=lambda i: (_ for _ in ()).throw(Unsupported("element of an unknown list")))
        if isinstance(e, SymObj): f = vc.newfun(x, I, I); return PList(v.kind, n=n, get=lambda i: SymObj(f(term(i)), e.cls))
        so = term(e).sort() if not isinstance(e, Opaque) else None
        if so is None: return PList(v.kind, n=n, get=lambda i: Opaque("element"))
        f = vc.newfun(x, I, so)
        return PList(v.kind, n=n, get=lambda i: f(term(i)))
    if v is None or isinstance(v, (Opaque, str)): return Opaque(x)
    raise Unsupported(f"an unknown value like {v!r}")


def _mean(self, a, kw):
    v = self.force(a[0])
    if isinstance(v, PList) and v.items is None and isz(v.get(z3.Int("i?"))) and "axis" not in kw: return self.new("mean", R)
    return statistic("mean", getattr(v, "nonneg", False))
def statistic(name, nonneg):
    """a number or an array of unknown size; its entries may be known not to be negative"""
    o = Opaque(name); o.nonneg, o.numeric = nonneg, True
    return o
def _append(self, a, v, old=CoreVC.append):
    if isinstance(v, Opaque) and getattr(v, "numeric", False):          # the contract of what is appended says: a number
        x = self.new(v.name, R)
        if v.nonneg: self.assume(x >= 0)
        v = x
    old(self, a, v)
CoreVC.append = _append
for _n in ("mean", "median", "average"): setattr(CoreVC, "np_" + _n, _mean)
def _std(self, a, kw): r = _mean(self, a, kw); return statistic("std", True) if isinstance(r, Opaque) else r
CoreVC.np_std = CoreVC.np_var = _std


def _clock(self, o, a, kw): return self.new("clock", R)
CoreVC.x_time_perf_counter = _clock
CoreVC.x_time_time = _clock

_old_abs = CoreVC.np_abs
def _abs(self, a, kw):
    v = self.force(a[0])
    if isinstance(v, Opaque): return statistic("abs", True)
    if isinstance(v, PList) and v.items is None and isinstance(v.get(z3.Int("i?")), Opaque): return statistic("abs", True)
    return _old_abs(self, a, kw)
CoreVC.np_abs = CoreVC.np_absolute = CoreVC.np_fabs = _abs
