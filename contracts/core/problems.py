"""C23: a problem over any number of decision variables of any lengths.  A variable is known by its contract only (that of BaseVar, which C09 decides for
each class): its length, bounds and name are fields, COR/DEC/ENC are what it makes of its own slice, GENBY what it may generate."""
from pydv.corelib import *
from pydv.pv import Obj, PList, PDict, Func, Opaque, PathEnd, PyExc, SymObj, Cls
from pydv import pv
ASSUME = ["a decision variable obeys BaseVar's contract (C09): its own correct, decode, encode and generate, each on the slice it is given; lengths are at least 1"]
P = "mealpy.utils.problem.Problem."
SP = "mealpy.utils.space."
VAL, SEED, GEN = z3.DeclareSort("VarValue"), z3.DeclareSort("Seed"), z3.DeclareSort("VarGenerator")
VB = z3.Function("variable", I, I)                    # the k-th variable of the problem
LBF, UBF = z3.Function("lb", I, I, R), z3.Function("ub", I, I, R)          # bound i of a variable
COR = z3.Function("corrected", I, I, I, R)            # (variable, start of its slice, i)
DECAT, DECALL = z3.Function("decoded", I, I, I, VAL), z3.Function("decoded_all", I, I, VAL)
ENC = z3.Function("encoded", I, VAL, I, R)
GENBY = z3.Function("generated_by", I, VAL, B)
ISVAR = z3.Function("is_a_variable", I, B)
MADE = z3.Function("default_rng", SEED, GEN)
OFF = z3.Function("offset", I, I)
NINV = z3.Function("name.inv", S, I)
NOSEED = z3.Const("no_seed", SEED)
j_ = z3.Int("j?")
def seedterm(v): return NOSEED if v is None else term(v)


class ProbVC(CoreVC):
    FIELDS = dict(CoreVC.FIELDS, Var={"n_vars": I, "name": S, "_seed": SEED, "generator": GEN})
    CLASSES = dict(CoreVC.CLASSES, Var=SP + "BaseVar")
    def start(self): super().start(); self.prefixes = []; self.encoded_arg = None
    def nv(self, t): return z3.Select(z3.Const("Var.n_vars!0", z3.ArraySort(I, I)), t)
    def nm(self, t): return z3.Select(z3.Const("Var.name!0", z3.ArraySort(I, S)), t)
    def variables(self, kind="list", isvar=True, distinct=False):
        m = z3.Int("number_of_variables"); self.m = m
        self.pc.append(m >= 1)
        self.pc.append(z3.ForAll([i_], z3.And(0 <= VB(i_), VB(i_) < self.alloc), patterns=[VB(i_)]))
        self.pc.append(z3.ForAll([i_], self.nv(i_) >= 1, patterns=[self.nv(i_)]))
        if isvar: self.pc.append(z3.ForAll([i_], ISVAR(VB(i_)), patterns=[VB(i_)]))
        if distinct: self.pc.append(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < m), NINV(self.nm(VB(i_))) == i_), patterns=[VB(i_)]))
        self.prefix_sums(OFF, lambda k: self.nv(VB(k)), m)
        self.prefixes.append((m, lambda k: self.nv(VB(k)), OFF))
        return PList(kind, n=m, get=lambda i: SymObj(VB(term(i)), "Var"))
    def prefix_sums(self, f, ln, m):
        """f(k) = ln(0) + ... + ln(k-1), with what follows by induction for non-negative lengths"""
        self.pc.append(f(0) == 0)
        self.pc.append(z3.ForAll([i_], z3.Implies(0 <= i_, f(i_ + 1) == f(i_) + ln(i_)), patterns=[f(i_)]))
        below = lambda k: z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < k), f(j_) + ln(j_) <= f(k)))
        k = z3.Int("m")
        self.nested += 1
        try: self.oblige("offsets grow, induction step", z3.Implies(z3.And(k >= 0, below(k), ln(k) >= 0), below(k + 1)))
        finally: self.nested -= 1
        self.pc.append(z3.ForAll([i_, j_], z3.Implies(z3.And(0 <= j_, j_ < i_), f(j_) + ln(j_) <= f(i_)), patterns=[z3.MultiPattern(f(j_), f(i_))]))
        self.pc.append(z3.ForAll([i_], z3.Implies(0 <= i_, f(i_) >= 0), patterns=[f(i_)]))
    # ---- slices remember where they come from
    def slice(self, b, s):
        r = super().slice(b, s)
        if r.items is None:
            root, off = getattr(b, "src", None) or (b, z3.IntVal(0))
            lo = z3.IntVal(0)
            if s.start is not None: n, x = term(b.n), intt(self.force(s.start)); lo = z3.If(x < 0, z3.If(n + x < 0, z3.IntVal(0), n + x), z3.If(x > n, n, x))
            if s.step is None or s.step == 1: r.src = (root, z3.simplify(off + lo))
        return r
    def keep(self, v, r):
        v = self.force(v)
        if isinstance(v, PList) and isinstance(r, PList) and r is not v and r.items is None: r.src = getattr(v, "src", None) or (v, z3.IntVal(0)); r.whole = getattr(v, "whole", None)
        return r
    def b_list(self, a, kw): return self.keep(a[0], super().b_list(a, kw)) if a else super().b_list(a, kw)
    def b_tuple(self, a, kw): return self.keep(a[0], super().b_tuple(a, kw)) if a else super().b_tuple(a, kw)
    def np_array(self, a, kw):
        v = self.force(a[0])
        if isinstance(v, PList) and v.items is None and isinstance(v.get(z3.Int("i?")), (Opaque, SymObj)): raise Unsupported("array of values")
        return self.keep(v, super().np_array(a, kw))
    np_asarray = np_array
    def origin(self, x):
        x = self.force(x)
        if not isinstance(x, PList): raise Unsupported("not a slice of the solution")
        root, lo = getattr(x, "src", None) or (x, z3.IntVal(0))
        if root is not self.given: raise Unsupported("not a slice of the given solution")
        return lo
    # ---- the fields of variables
    def symattr(self, b, a):
        if b.cls == "Var" and a in ("lb", "ub"):
            f = LBF if a == "lb" else UBF
            return PList("array", n=self.nv(b.t), get=lambda i: f(b.t, term(i)))
        return super().symattr(b, a)
    def symsetattr(self, b, a, v):
        if b.cls == "Var":
            if a in ("name", "n_vars", "lb", "ub"): raise Unsupported("a variable is redefined")
            if a == "_seed" and v is None: v = Opaque("seed", NOSEED)
            f = self.repo.method(self.repo.cls(SP + "BaseVar"), a + ".setter")
            if f is not None: self.call(Func(fn=f, self_=b), [v], {}); return
        super().symsetattr(b, a, v)
    def isinstance_(self, v, c):
        v, c = self.force(v), self.force(c)
        if isinstance(v, SymObj) and v.cls == "Var":
            if isinstance(c, Cls) and c.qual == SP + "BaseVar": return ISVAR(v.t)
            raise Unsupported("the class of a variable")
        return super().isinstance_(v, c)
    def ext_hook(self, name, self_, args, kw, node):
        if name == "numpy.random.default_rng": return Opaque("generator", MADE(seedterm(args[0])))
        return super().ext_hook(name, self_, args, kw, node)
    # ---- dictionaries of unknown size grow by new keys
    def dictvalue(self, v):
        v = self.force(v)
        if isinstance(v, PList):
            if getattr(v, "whole", None) is None: raise Unsupported("value of a dictionary")
            return Opaque("value", v.whole)
        return v
    def setitem(self, b, i, v):
        b = self.force(b)
        if isinstance(b, PDict) and b.seq is None and not b.items and isz(i): b.seq = PList("list", [])
        if isinstance(b, PDict) and b.seq is not None and not self.nested:
            n = term(b.seq.n)
            if b.seq.items != []:
                c = self.contains(b, i)
                if not isinstance(c, bool) and not self.refuted([c]): raise Unsupported("a key that may be in the dictionary")
            old = b.seq; new = PList("tuple", [i, self.dictvalue(v)])
            b.seq = PList("list", [new]) if old.items == [] else PList("list", n=z3.simplify(n + 1), get=lambda x: merge(term(x) == n, new, old.get(x)))
            return
        super().setitem(b, i, v)
    # ---- arrays one after the other
    def np_concatenate(self, a, kw):
        v = self.iterable(self.force(a[0]))
        if v.items is not None: return super().np_concatenate(a, kw)
        e = v.get(z3.Int("i?"))
        if not isinstance(e, PList): raise Unsupported("concatenate")
        n = term(v.n); ln = lambda k: term(v.get(k).n)
        self.need(n > 0, "ValueError")
        for m, l, f in self.prefixes:
            if not self.nested and pv.decide(self.pc, z3.And(n == m, forall(n, lambda k: ln(k) == l(k))), 1000)[0] == "proved": off = f; break
        else:
            off = self.newfun("offset", I, I)
            if pv.decide(self.pc, forall(n, lambda k: ln(k) >= 0), 1000)[0] != "proved": raise Unsupported("lengths of the parts")
            self.prefix_sums(off, ln, n)
        at = self.newfun("joined", I, R)
        k = z3.Int("k?")
        self.assume(z3.ForAll([k, i_], z3.Implies(z3.And(0 <= k, k < n, 0 <= i_, i_ < ln(k)), at(off(k) + i_) == real(v.get(k).get(i_)))))
        return PList("array", n=off(n), get=lambda i: at(term(i)))


from pydv.pv import merge, real


# ---- the contract of a variable (C09 decides it class by class)
class VarMethod(Contract):
    props, encoded = (), True
    def slice_of(self, vc, a):
        lo = vc.origin(a["x"])
        return lo
class VarCorrect(VarMethod):
    target = SP + "BaseVar.correct"
    def requires(self, vc, a): return [("the argument has the length of the variable", term(vc.force(a["x"]).n) == vc.nv(a["self"].t))]
    def havoc_call(self, vc, a):
        t, lo = a["self"].t, vc.origin(a["x"])
        return PList("array", n=vc.nv(t), get=lambda i: COR(t, lo, term(i)))
class VarDecode(VarCorrect):
    target = SP + "BaseVar.decode"
    def havoc_call(self, vc, a):
        t, lo = a["self"].t, vc.origin(a["x"])
        r = PList("array", n=vc.nv(t), get=lambda i: Opaque("decoded", DECAT(t, lo, term(i))))
        r.whole = DECALL(t, lo)
        return r
class VarEncode(VarMethod):
    target = SP + "BaseVar.encode"
    def havoc_call(self, vc, a):
        t, x = a["self"].t, vc.force(a["x"])
        if not (isinstance(x, Opaque) and x.t is not None and x.t.sort() == VAL): raise Unsupported("the value to encode")
        return PList("array", n=vc.nv(t), get=lambda i: ENC(t, x.t, term(i)))
class VarGenerate(VarMethod):
    target = SP + "BaseVar.generate"
    def havoc_call(self, vc, a):
        v = vc.new("generated", VAL); vc.assume(GENBY(a["self"].t, v))
        return Opaque("value", v)


# ---- loops over the variables
class VarLoop(Inv):
    """acc: what the list (or dictionary) made so far holds"""
    def __init__(self, acc): super().__init__(None); self.acc = acc
    def goals(self, vc, env, k, n):
        if isinstance(k, int) and k == 0:
            fn = vc.stack[-1]["fn"]; ps = {x.arg for x in fn.node.args.args}
            loc = {x: v for x, v in env.items() if x not in ps}
            self.off = [x for x, v in loc.items() if isinstance(v, int) and not isinstance(v, bool)]
            self.lst = [x for x, v in loc.items() if isinstance(v, PList) and v.kind == "list"]
            self.dct = [x for x, v in loc.items() if isinstance(v, PDict)]
            if len(self.off) > 1 or len(self.lst) + len(self.dct) != 1: raise Unsupported("the locals of the loop")
        k = term(k)
        g = [("it is over the variables", term(n) == vc.m)]
        for x in self.off: g.append(("the offset is the total length of the variables so far", intt(env[x]) == OFF(k)))
        return g + self.acc(vc, env[(self.lst + self.dct)[0]], k)
    def havoc(self, vc, env, modified):
        for x in self.off: env[x] = vc.new(x, I)
        for x in self.lst:
            f = vc.newfun(x, I, R); ln = vc.new(x + ".len", I)
            l = env[x]; l.items, l._n, l._get = None, ln, lambda i: f(term(i))
        for x in self.dct:
            ks, vs = vc.newfun(x + ".key", I, S), vc.newfun(x + ".value", I, VAL); ln = vc.new(x + ".len", I)
            env[x].items, env[x].seq = [], PList("list", n=ln, get=lambda i: PList("tuple", [ks(term(i)), Opaque("value", vs(term(i)))]))


def joined(vc, l, k, val, what):
    """l holds, one after the other, the n(j) numbers val(j, i) of the variables j < k"""
    g = [("their total length", term(l.n) == OFF(k))]
    if l.items == []: return g
    body = z3.Implies(z3.And(0 <= j_, j_ < k, 0 <= i_, i_ < vc.nv(VB(j_))), real(l.get(OFF(j_) + i_)) == val(j_, i_))
    return g + [(what, z3.ForAll([j_, i_], body, patterns=[z3.MultiPattern(VB(j_), val(j_, i_))]))]


class Static(Contract):
    props, make = ("C23",), ProbVC
    uses = tuple(SP + "BaseVar." + m for m in ("correct", "decode", "encode", "generate"))
    def given(self, vc, x):
        """the solution has the dimension of the problem"""
        if not hasattr(vc, "m"): raise Unsupported("no variables")
        return [("the solution has the dimension of the problem", term(x.n) == OFF(vc.m))]
    def isvars(self, vc, b):
        b = vc.force(b)
        return [("the bounds are the variables", z3.And(term(b.n) == vc.m, forall(vc.m, lambda k: b.get(k).t == VB(k))) if isinstance(b, PList) else z3.BoolVal(False))]
    def solution(self, vc):
        k = ("array", "list")[vc.choice(2)]
        f = z3.Function("x", I, R); n = z3.Int("x.len")
        x = PList(k, n=n, get=lambda i: f(term(i))); vc.given = x
        return x
    def values(self, vc):
        f = z3.Function("value", I, VAL)
        return PList(("list", "tuple")[vc.choice(2)], n=vc.m, get=lambda i: Opaque("value", f(term(i))))
    def at0(self, vc, a):
        """the solution given to a caller of the contract starts at"""
        return vc.origin(a["x"])


class CorrectB(Static):
    target = P + "correct_solution_with_bounds"
    val = staticmethod(lambda j, i: COR(VB(j), OFF(j), i))
    what = "each coordinate is what its own variable makes of its own slice, in order"
    loops = {0: VarLoop(lambda vc, l, k: joined(vc, l, k, CorrectB.val, CorrectB.what))}
    def args(self, vc): b = vc.variables(); return dict(x=self.solution(vc), bounds=b)
    def requires(self, vc, a): return self.isvars(vc, a["bounds"]) + self.given(vc, vc.force(a["x"])) + [("from its start", self.at0(vc, a) == 0)]
    def ensures(self, vc, a, old, r):
        if not isinstance(r, PList): return [("a solution is returned", False)]
        return joined(vc, r, vc.m, self.val, self.what) + [("it is an array", r.kind == "array")]
    def result(self, vc, a): f = vc.newfun("corrected", I, R); return PList("array", n=vc.new("len", I), get=lambda i: f(term(i)))


class DecodeB(Static):
    target = P + "decode_solution_with_bounds"
    @staticmethod
    def holds(vc, d, k):
        if d.seq is None: return [("one entry per variable so far", z3.IntVal(len(d.items)) == k)]
        n = term(d.seq.n)
        g = [("one entry per variable so far", n == k)]
        if d.seq.items == []: return g
        key = lambda i: term(d.seq.get(i).items[0]); val = lambda i: term(vc.dictvalue(d.seq.get(i).items[1]))
        t = lambda i: VB(i)
        return g + [("its names are those of the variables, in order", forall(k, lambda i: key(i) == vc.nm(t(i)))),
                    ("each value is what the variable makes of its own slice (a single one is not in a sequence)", forall(k, lambda i: val(i) == z3.If(vc.nv(t(i)) == 1, DECAT(t(i), OFF(i), 0), DECALL(t(i), OFF(i)))))]
    loops = {0: VarLoop(lambda vc, d, k: DecodeB.holds(vc, d, k))}
    def args(self, vc): b = vc.variables(distinct=True); return dict(x=self.solution(vc), bounds=b)
    def requires(self, vc, a): return self.isvars(vc, a["bounds"]) + self.given(vc, vc.force(a["x"])) + [("from its start", self.at0(vc, a) == 0)]
    def ensures(self, vc, a, old, r):
        if not isinstance(r, PDict): return [("a dictionary is returned", False)]
        return self.holds(vc, r, vc.m)
    def result(self, vc, a):
        ks, vs = vc.newfun("key", I, S), vc.newfun("value", I, VAL); d = PDict()
        d.seq = PList("list", n=vc.new("len", I), get=lambda i: PList("tuple", [ks(term(i)), Opaque("value", vs(term(i)))]))
        return d


class EncodeB(Static):
    target = P + "encode_solution_with_bounds"
    what = "each coordinate comes from the value of its own variable, in order"
    @staticmethod
    def val(vc): x = vc.encoded_arg; return lambda j, i: ENC(VB(j), x.get(j).t, i)
    loops = {0: VarLoop(lambda vc, l, k: joined(vc, l, k, EncodeB.val(vc), EncodeB.what))}
    def args(self, vc):
        b = vc.variables(); x = self.values(vc); vc.encoded_arg = x
        return dict(x=x, bounds=b)
    def requires(self, vc, a):
        x = vc.force(a["x"])
        ok = isinstance(x, PList) and (x.items is None and isinstance(x.get(z3.Int("i?")), Opaque))
        return self.isvars(vc, a["bounds"]) + [("one value per variable", term(x.n) == vc.m if ok else z3.BoolVal(False))]
    def snapshot(self, vc, a): vc.encoded_arg = vc.force(a["x"]); return super().snapshot(vc, a)
    def ensures(self, vc, a, old, r):
        if not isinstance(r, PList): return [("a solution is returned", False)]
        x = vc.force(a["x"])
        return joined(vc, r, vc.m, lambda j, i: ENC(VB(j), x.get(j).t, i), self.what) + [("it is an array", r.kind == "array")]
    def result(self, vc, a): f = vc.newfun("encoded", I, R); return PList("array", n=vc.new("len", I), get=lambda i: f(term(i)))


class GenerateB(Static):
    target = P + "generate_solution_with_bounds"
    uses = Static.uses + (EncodeB.target,)
    def args(self, vc): return dict(bounds=vc.variables(("list", "tuple", "array")[vc.choice(3)]), encoded=z3.Bool("encoded"))
    def requires(self, vc, a): return self.isvars(vc, a["bounds"])
    def ensures(self, vc, a, old, r):
        if not isinstance(r, PList): return [("a solution is returned", False)]
        by = lambda w: z3.And(term(w.n) == vc.m, forall(vc.m, lambda k: GENBY(VB(k), w.get(k).t)))
        e = vc.truth(a["encoded"])
        if not e:
            ok = r.items is None and isinstance(r.get(z3.Int("i?")), Opaque)
            return [("the k-th value is generated by the k-th variable", by(r) if ok else False)]
        w = vc.encoded_arg
        if w is None: return [("it encodes generated values", False)]
        return [("the k-th value is generated by the k-th variable", by(w))] + joined(vc, r, vc.m, lambda j, i: ENC(VB(j), w.get(j).t, i), EncodeB.what)
    def result(self, vc, a):
        w = vc.newfun("generated", I, VAL); l = PList("list", n=vc.new("len", I), get=lambda i: Opaque("value", w(term(i))))
        if not vc.truth(a["encoded"]): return l
        vc.encoded_arg = l
        f = vc.newfun("encoded", I, R); return PList("array", n=vc.new("len", I), get=lambda i: f(term(i)))


# ---- the methods of a problem
class Method(Static):
    distinct = False                                  # only decoding needs different names
    def self(self, vc, **over):
        o = Obj(vc.repo.cls(P[:-1])); o.f.update(minmax=vc.minmax(), seed=Opaque("seed", z3.Const("self.seed", SEED)), n_dims=None, lb=None, ub=None, _n_objs=None, obj_weights=None, save_population=False, name="P", log_to="console", log_file="f", logger=Obj("Logger"))
        o.f["_bounds"] = vc.variables(distinct=self.distinct); o.f.update(over)
        return o
class Correct(Method):
    target, uses, inner = P + "correct_solution", (CorrectB.target,), CorrectB
    def args(self, vc): o = self.self(vc); return dict(self=o, x=self.solution(vc))
    def requires(self, vc, a): return self.given(vc, vc.force(a["x"]))
    def ensures(self, vc, a, old, r): return self.inner().ensures(vc, dict(a, bounds=a["self"].f["_bounds"]), old, r)
class Decode(Correct): target, uses, inner, distinct = P + "decode_solution", (DecodeB.target,), DecodeB, True
class Encode(Method):
    target, uses = P + "encode_solution", (EncodeB.target,)
    def args(self, vc): o = self.self(vc); return dict(self=o, x=self.values(vc))
    def ensures(self, vc, a, old, r): return EncodeB().ensures(vc, a, old, r)
class Generate(Method):
    target, uses = P + "generate_solution", (GenerateB.target,)
    def args(self, vc): return dict(self=self.self(vc), encoded=z3.Bool("encoded"))
    def ensures(self, vc, a, old, r): return GenerateB().ensures(vc, a, old, r)


def seeded(vc, o, k, seed):
    s, g = vc.map("Var", "_seed"), vc.map("Var", "generator")
    return [("every variable so far is seeded", z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < k), z3.And(s[VB(j_)] == seed, g[VB(j_)] == MADE(seed))), patterns=[VB(j_)]))]
class SeedLoop(Inv):
    def __init__(self, bounds=False): super().__init__(None); self.bounds = bounds
    def goals(self, vc, env, k, n):
        o = env["self"] if "self" in env else next(v for v in env.values() if isinstance(v, Obj))
        k = term(k)
        g = [("it is over the variables", term(n) == vc.m)] + seeded(vc, o, k, seedterm(o.f["seed"]))
        if self.bounds:
            b = o.f["_bounds"]
            g.append(("all so far are variables", z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < k), ISVAR(VB(j_))), patterns=[VB(j_)])))
            g.append(("the variables so far are kept, in order", z3.And(term(b.n) == k, z3.BoolVal(True) if b.items == [] else forall(k, lambda i: b.get(i).t == VB(i)))))
        return g
    def havoc(self, vc, env, modified):
        o = env["self"] if "self" in env else next(v for v in env.values() if isinstance(v, Obj))
        for f in ("_seed", "generator"): vc.maps["Var." + f] = vc.new("Var." + f, vc.map("Var", f).sort())
        if self.bounds:
            b = o.f["_bounds"]; f = vc.newfun("kept", I, I); b.items, b._n, b._get = None, vc.new("kept.len", I), lambda i: SymObj(f(term(i)), "Var")
    

class SetSeed(Method):
    target, uses, proof_only = P + "set_seed", (), True
    loops = {0: SeedLoop()}
    def args(self, vc): return dict(self=self.self(vc), seed=Opaque("seed", z3.Const("seed", SEED)))
    def ensures(self, vc, a, old, r):
        o, s = a["self"], term(a["seed"])
        return [("the seed is kept", seedterm(o.f["seed"]) == s)] + seeded(vc, o, vc.m, s)


class SetBounds(Method):
    """bounds: a variable, a sequence of objects, or something else"""
    target, uses = P + "set_bounds", ()
    loops = {0: SeedLoop(bounds=True)}
    def args(self, vc):
        o = self.self(vc); o.f["_bounds"] = None
        k = vc.choice(5)
        if k == 0: vc.assume(vc.m == 1); b = SymObj(VB(0), "Var"); vc.assume(ISVAR(VB(0)))
        elif k == 4: b = ("text", None, 3, PDict())[vc.choice(4)]
        else: b = self.objects(vc, ("list", "tuple", "array")[k - 1])
        self.form = k
        return dict(self=o, bounds=b)
    def objects(self, vc, kind): return PList(kind, n=vc.m, get=lambda i: SymObj(VB(term(i)), "Var"))
    def self(self, vc, **over):
        o = super().self(vc, **over)
        # here the objects are not known to be variables
        vc.pc[:] = [p for p in vc.pc if not (z3.is_quantifier(p) and z3.eq(p.body(), z3.ForAll([i_], ISVAR(VB(i_)), patterns=[VB(i_)]).body()))]
        return o
    def exceptional(self, vc, a, old, e):
        if e.kind == "TypeError": return [("TypeError only for what is neither a variable nor a sequence", z3.BoolVal(not isinstance(a["bounds"], (PList, SymObj))))]
        if e.kind == "ValueError": return [("ValueError only for a sequence with something that is not a variable", z3.Exists([j_], z3.And(0 <= j_, j_ < vc.m, z3.Not(ISVAR(VB(j_))))) if isinstance(a["bounds"], PList) else z3.BoolVal(False))]
        return [(f"{e.kind} is not raised", z3.BoolVal(False))]
    def ensures(self, vc, a, old, r):
        o = a["self"]; b = o.f["_bounds"]
        if not isinstance(a["bounds"], (PList, SymObj)): return [("anything else is rejected", False)]
        g = [("all are variables", forall(vc.m, lambda k: ISVAR(VB(k))))]
        g.append(("the variables are kept in order", z3.And(term(b.n) == vc.m, forall(vc.m, lambda k: b.get(k).t == VB(k))) if isinstance(b, PList) else False))
        g.append(("the dimension is their total length", term(o.f["n_dims"]) == OFF(vc.m)))
        for f, F in (("lb", LBF), ("ub", UBF)):
            l = o.f[f]
            g += [(f"{f}: {n}", x) for n, x in joined(vc, l, vc.m, lambda j, i: F(VB(j), i), "the bounds of the variables in order")] if isinstance(l, PList) else [(f, False)]
        return g + seeded(vc, o, vc.m, seedterm(o.f["seed"]))


CONTRACTS = [VarCorrect, VarDecode, VarEncode, VarGenerate, CorrectB, DecodeB, EncodeB, GenerateB, Correct, Decode, Encode, Generate, SetSeed, SetBounds]
