"""C09: decision variables.  Every object is built by running the real constructor on unknown legal arguments; numbers are exact reals, labels are
values of an unknown sort, arrays and label sets have unknown lengths."""
from pydv.corelib import *
from pydv.pv import Obj, PList, Func, Opaque, PathEnd, PyExc, NpNum, XF
from pydv import pv
ASSUME = ["labels are values with a total order (bytes, numbers or strings); encoding by position in the sorted set",
          "numbers are exact reals: rounding is in the bounded part",
          "the random generator gives any value its documentation allows"]
SP = "mealpy.utils.space."
LB = z3.DeclareSort("Label")


class VarVC(CoreVC):
    ownfit = True
    def start(self): super().start(); self.ranges = []; self.sizes = {}
    def ext_hook(self, name, self_, args, kw, node):
        if name == "numpy.random.default_rng": return Obj("Generator")
        return super().ext_hook(name, self_, args, kw, node)
    def label(self, t): return Opaque("label", t)
    def labels(self, name, kind="list", n=None, minlen=1, distinct=True):
        """distinct labels in a sequence"""
        if n is None: n = z3.Int(name + ".len"); self.pc.append(n >= minlen)
        f = z3.Function(name, I, LB)
        if distinct:
            g = z3.Function(name + ".inv", LB, I)
            self.pc.append(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < n), g(f(i_)) == i_), patterns=[f(i_)]))
        r = PList(kind, n=n, get=lambda i: self.label(f(term(i)))); r.distinct = distinct
        return r
    def labelset(self, name, idx, kind, n, inv=None):
        """the idx-th of a sequence of label sets"""
        f, g = z3.Function(name, I, I, LB), z3.Function(name + ".inv", I, LB, I)
        return PList(kind, n=n, get=lambda i: self.label(f(idx, term(i))))
    # ---- contracts of builtins on labels
    def b_set(self, a, kw):
        v = self.iterable(self.force(a[0]))
        if v.items is not None and all(isinstance(x, str) for x in v.items): return PList("list", sorted(set(v.items)))
        f = v.get(z3.Int("i?"))
        if not isinstance(f, Opaque) or f.t is None: raise Unsupported("set")
        so = f.t.sort(); n = term(v.n)
        m = self.new("set.len", I); e = self.newfun("set", I, so); src = self.newfun("set.src", I, I); dst = self.newfun("set.dst", I, I); inv = self.newfun("set.inv", so, I)
        at = lambda i: v.get(i).t
        self.assume(z3.And(0 <= m, m <= n, z3.Implies(n > 0, m > 0)))
        self.assume(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < m), z3.And(inv(e(i_)) == i_, 0 <= src(i_), src(i_) < n, e(i_) == at(src(i_)))), patterns=[e(i_)]))
        self.assume(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < n), z3.And(0 <= dst(i_), dst(i_) < m, e(dst(i_)) == at(i_))), patterns=[at(i_)]))
        dis = forall2(n, lambda i, k: at(i) != at(k)) if not getattr(v, "distinct", False) else z3.BoolVal(True)
        self.assume(z3.Implies(dis, m == n))
        return PList("list", n=m, get=lambda i: self.label(e(term(i))))
    def sort(self, v, key, reverse):
        if v.items is not None: return PList("list", list(v.items))           # (the order of labels is not part of the property)
        e = v.get(z3.Int("i?"))
        if isinstance(e, Opaque) and e.t is not None:
            n = term(v.n); p, q = self.permutation(n, lambda i: v.get(i).t)
            return PList("list", n=n, get=lambda i: v.get(p(term(i))))
        return super().sort(v, key, reverse)
    def b_tuple(self, a, kw):
        if a and isinstance(self.force(a[0]), Opaque): return self.force(a[0])
        return super().b_tuple(a, kw)
    b_list0 = CoreVC.b_list
    def b_list(self, a, kw):
        if a and isinstance(self.force(a[0]), Opaque): return self.force(a[0])
        return super().b_list(a, kw)
    def np_argsort(self, a, kw):
        r = super().np_argsort(a, kw)
        v = self.seq(a[0]); n = term(v.n)
        if v.items is None and isz(v.get(z3.Int("i?"))):
            # strictly increasing whole numbers s(0) < ... < s(n-1) in [0, n) are 0, ..., n-1 (induction from both ends); so the argsort of a permutation of range(n) is its inverse
            s, m = z3.Function("s", I, I), z3.Int("m")
            inc = forall2(m, lambda i, k: s(i) < s(k))
            self.oblige("argsort of a permutation, induction upwards", z3.ForAll([i_], z3.Implies(z3.And(inc, 0 <= i_, i_ + 1 < m, s(i_) >= i_), s(i_ + 1) >= i_ + 1)))
            self.oblige("argsort of a permutation, induction downwards", z3.ForAll([i_], z3.Implies(z3.And(inc, 0 <= i_, i_ + 1 < m, s(i_ + 1) <= i_ + 1), s(i_) <= i_)))
            at = lambda i: toint(v.get(i))
            perm = z3.And(forall(n, lambda i: z3.And(0 <= at(i), at(i) < n)), forall2(n, lambda i, k: at(i) != at(k)))
            if isz(v.get(z3.Int("i?"))) and v.get(z3.Int("i?")).sort() == R: perm = z3.And(perm, forall(n, lambda i: z3.IsInt(v.get(i))))
            if not self.nested and pv.decide(self.pc, perm, 1000)[0] == "proved": perm = z3.BoolVal(True)
            self.assume(z3.Implies(perm, z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < n), at(r.get(i_)) == i_), patterns=[r.get(i_)])))
        return r
    # ---- the generator
    def rng_uniform(self, a, kw):
        d = dict(zip(["low", "high"], a)); d.update(kw)
        if set(d) != {"low", "high"}: raise Unsupported("uniform")
        def f(l, u):
            x = self.new("uniform", R); self.assume(z3.And(z3.Implies(real(l) <= real(u), z3.And(real(l) <= x, x <= real(u))))); return x
        return self.elementwise(f, d["low"], d["high"])
    def rng_integers(self, a, kw):
        d = dict(zip(["low", "high", "size"], a)); d.update(kw)
        lo, hi = (0, d["low"]) if d.get("high") is None else (d["low"], d["high"])
        lo, hi = self.force(lo), self.force(hi)
        def draw(l, h):
            l, h = intt(l), intt(h); self.need(l < h, "ValueError")
            c = self.new("integers", I); self.assume(z3.And(l <= c, c < h)); return c
        if d.get("size") is not None:
            l, h = intt(lo), intt(hi); self.ranges.append((lambda i: l, lambda i: h))
            return self.mapseq(self.const_array(d["size"], 0.0), lambda _: draw(lo, hi), kind="array")
        if isinstance(lo, PList) or isinstance(hi, PList):
            g = lambda v: (lambda i: intt(v.get(i)) if isinstance(v, PList) else intt(v))
            self.ranges.append((g(lo), g(hi)))
            return self.elementwise(draw, lo, hi)
        self.ranges.append((lambda i: intt(lo), lambda i: intt(hi)))
        return draw(lo, hi)
    def rng_random(self, a, kw):
        d = dict(zip(["size"], a)); d.update(kw)
        def one(_=None): c = self.new("random", R); self.assume(z3.And(0 <= c, c < 1)); return c
        if d.get("size") is None: return one()
        return self.mapseq(self.const_array(d["size"], 0.0), one, kind="array")
    def rng_permutation(self, a, kw):
        v = self.force(a[0])
        if not isinstance(v, PList): v = self.iterable(pv.Rng(0, v, 1))
        n = term(v.n); p, q = self.permutation(n)
        r = PList("array", n=n, get=lambda i: v.get(p(term(i)))); r.perm = (p, q)
        return r
    def seqsum(self, v):
        e = v.get(z3.Int("i?")); so = e.sort() if isz(e) else R
        s = self.new("sum", so); n = term(v.n); g = lambda i: term(v.get(i))
        self.assume(z3.Implies(forall(n, lambda i: g(i) == 0), s == 0))
        self.assume(z3.Implies(forall(n, lambda i: g(i) >= 0), z3.And(s >= 0, forall(n, lambda i: s >= g(i)))))
        return s
    def hook(self, q, f, args, kw, node):
        if q.startswith("mealpy.utils.transfer."):          # their values lie in [0, 1] (C19)
            self.assumed.add(q)
            def one(_): c = self.new("transfer", R); self.assume(z3.And(0 <= c, c <= 1)); return c
            return self.elementwise(one, args[0])
        return super().hook(q, f, args, kw, node)


def toint(v): t = term(v); return t if t.sort() == I else z3.ToInt(real(t))
def seqeq(vc, a, b, n, eq=None):
    """a and b have n elements, equal ones"""
    eq = eq or (lambda x, y: real(x) == real(y))
    return z3.And(term(a.n) == n, term(b.n) == n, forall(n, lambda i: eq(a.get(i), b.get(i))))


class Var(Contract):
    """a method of a variable class, for every object the constructor makes of legal arguments"""
    props, make, uses, proof_only, kind = ("C09",), VarVC, (), True, None
    forms = (0,)
    def build(self, vc, form): raise NotImplementedError
    def args(self, vc):
        form = self.forms[vc.choice(len(self.forms))]
        c = vc.repo.cls(SP + self.cls)
        vc.stack.append(dict(env={}, fn=None, mod=c.mod, cls=None))
        try: o = self.build(vc, c, form)
        except PyExc as e:
            vc.nested += 1; vc.oblige(f"{self.cls}: the constructor accepts legal arguments ({e.kind})", z3.BoolVal(False)); vc.nested -= 1
            raise PathEnd()
        finally: vc.stack.pop()
        self.o = o
        vc.ranges = []
        a = {"self": o}
        m = self.target.rsplit(".", 1)[1]
        if m in ("correct", "decode"): a["x"] = self.vector(vc, form)
        if m == "encode": a["x"] = self.value(vc, form)
        return a
    def vector(self, vc, form):
        """any real vector of the right length"""
        n = self.n(vc, form)
        if isinstance(n, int): return PList("array", [z3.Real(f"x{k}") for k in range(n)])
        f = z3.Function("x", I, R)
        return PList("array", n=n, get=lambda i: f(term(i)))
    def n(self, vc, form): return 1 if form == 0 else z3.Int("n")
    def snapshot(self, vc, a):
        return dict(f={k: v for k, v in self.o.f.items() if k != "generator"}, x=(dict(n=a["x"].n, items=a["x"].items, get=a["x"]._get) if isinstance(a.get("x"), PList) else None))
    def ensures(self, vc, a, old, r):
        m = self.target.rsplit(".", 1)[1]
        n = term(self.n(vc, None) if self.form(vc, a) is None else self.n(vc, self.form(vc, a)))
        g = [("the variable is not changed", all(vc_same(self.o.f.get(k), v) for k, v in old["f"].items()))]
        if old["x"] is not None: g.append(("the given vector is not changed", a["x"]._get is old["x"]["get"] and (a["x"].items is None or list(a["x"].items) == list(old["x"]["items"]))))
        call = lambda name, v: vc.call(vc.getattr(self.o, name), [v], {})
        if m == "correct":
            g += self.inside(vc, r, n)
            if self.repairs: g.append(("repairing again changes nothing", seqeq(vc, call("correct", r), r, n)))
        elif m == "decode": g += self.legal(vc, r, n)
        elif m == "generate": g += self.legal(vc, r, n, generated=True)
        elif m == "encode":
            g.append(("a number for each element", term(r.n) == n))
            if self.roundtrip:
                g += [(nm + " (encoded)", t) for nm, t in self.inside(vc, r, n)]
                g += self.same(vc, call("decode", r), a["x"], n)
        return g
    repairs = roundtrip = True
    def form(self, vc, a): return self.curform
    def inside(self, vc, r, n):
        lb, ub = self.o.f["lb"], self.o.f["ub"]
        return [("a number for each element", z3.And(term(r.n) == n, term(lb.n) == n, term(ub.n) == n)), ("inside the bounds", forall(n, lambda i: z3.And(real(lb.get(i)) <= real(r.get(i)), real(r.get(i)) <= real(ub.get(i)))))] + self.bounds(vc, n)
    def bounds(self, vc, n): return []
    def same(self, vc, r, v, n): return [("decoding the encoding returns the value", seqeq(vc, r, v, n))]


def vc_same(a, b): return a is b or pv.isz(a) and pv.isz(b) and z3.eq(a, b) or isinstance(a, (int, float, str, bool)) and type(a) is type(b) and a == b


class Numbers:
    forms = (0, "list", "tuple", "array")
    integer = False
    def build(self, vc, c, form):
        self.curform = form
        so = I if self.integer else R
        if form == 0:
            l, u = z3.Const("l", so), z3.Const("u", so); vc.pc.append(l <= u); self.l, self.u = (lambda i: l), (lambda i: u)
            a = [l, u]
        else:
            n = z3.Int("n"); vc.pc.append(n >= 1)
            f, g = z3.Function("l", I, so), z3.Function("u", I, so)
            vc.pc.append(z3.ForAll([i_], f(i_) <= g(i_)))
            self.l, self.u = (lambda i: f(term(i))), (lambda i: g(term(i)))
            a = [PList(form, n=n, get=self.l), PList(form, n=n, get=self.u)]
        return vc.construct(c, a, {}, None)
    def legal(self, vc, r, n, generated=False):
        e = r.get(0 if r.items is not None else z3.Int("i?"))
        g = [("a value for each element", term(r.n) == n), ("not below the range", forall(n, lambda i: real(self.l(i)) <= real(r.get(i)))), ("not above the range", forall(n, lambda i: real(r.get(i)) <= real(self.u(i))))]
        if self.integer:
            g.append(("whole numbers", z3.BoolVal(isz(e) and e.sort() == I)))
            if generated: g.append(("every value can be generated", z3.BoolVal(False) if not vc.ranges else forall(n, lambda i: z3.And(vc.ranges[-1][0](i) == self.l(i), vc.ranges[-1][1](i) == self.u(i) + 1))))
        return g
    def value(self, vc, form):
        so = I if self.integer else R
        if form == 0: v = z3.Const("v", so); vc.pc.append(z3.And(self.l(0) <= v, v <= self.u(0))); return PList("list", [v])
        n = z3.Int("n"); f = z3.Function("v", I, so)
        vc.pc.append(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < n), z3.And(self.l(i_) <= f(i_), f(i_) <= self.u(i_))), patterns=[f(i_)]))
        return PList("list", n=n, get=lambda i: f(term(i)))


class Strings:
    """labels: one set, or a sequence of sets"""
    forms = ("list", "tuple", "nested list", "nested tuple")
    def build(self, vc, c, form):
        self.curform = form
        if form in ("list", "tuple"):
            self.m = z3.Int("m"); vc.pc.append(self.m >= 1)
            s = vc.labels("label", form, n=self.m)
            self.at = lambda v, i: s.get(i).t; self.size = lambda v: self.m
            a = s
        else:
            n = z3.Int("n"); vc.pc.append(n >= 1)
            size = z3.Function("size", I, I); vc.pc.append(z3.ForAll([i_], size(i_) >= 2, patterns=[size(i_)]))
            f, g = z3.Function("label", I, I, LB), z3.Function("label.inv", I, LB, I)
            vc.pc.append(z3.ForAll([k_, i_], z3.Implies(z3.And(0 <= i_, i_ < size(k_)), g(k_, f(k_, i_)) == i_), patterns=[f(k_, i_)]))
            self.at = lambda v, i: f(v, i); self.size = lambda v: size(term(v))
            def one(v):
                r = PList("tuple", n=size(term(v)), get=lambda i: vc.label(f(term(v), term(i)))); r.distinct = True; return r
            a = PList(form.split()[1], n=n, get=one)
        return vc.construct(c, [a], {}, None)
    def n(self, vc, form): return 1 if form in ("list", "tuple") else z3.Int("n")
    def islabel(self, vc, v, t): return z3.Exists([k_], z3.And(0 <= k_, k_ < self.size(v), self.at(v, k_) == t))
    def legal(self, vc, r, n, generated=False):
        e = r.get(0 if r.items is not None else z3.Int("i?"))
        if not isinstance(e, Opaque) or e.t is None: return [("labels", False)]
        return [("a label for each variable", term(r.n) == n), ("labels of the variable's set", forall(n, lambda i: self.islabel(vc, i, r.get(i).t)))]
    def value(self, vc, form):
        n = self.n(vc, form)
        if n == 1:
            k = z3.Int("vi"); vc.pc.append(z3.And(0 <= k, k < self.size(0))); return PList("list", [vc.label(self.at(0, k))])
        f = z3.Function("vi", I, I); vc.pc.append(z3.ForAll([i_], z3.And(0 <= f(i_), f(i_) < self.size(i_)), patterns=[f(i_)]))
        return PList("list", n=n, get=lambda i: vc.label(self.at(term(i), f(term(i)))))
    def same(self, vc, r, v, n): return [("decoding the encoding returns the value", seqeq(vc, r, v, n, lambda x, y: x.t == y.t if isinstance(x, Opaque) else z3.BoolVal(False)))]
    def bounds(self, vc, n):
        lb, ub = self.o.f["lb"], self.o.f["ub"]
        return [("the bounds select every label", forall(n, lambda i: z3.And(real(lb.get(i)) <= 0, real(lb.get(i)) > -1, real(ub.get(i)) >= z3.ToReal(self.size(i)) - 1, real(ub.get(i)) < z3.ToReal(self.size(i)))))]


class Sequences(Strings):
    forms = ("list", "tuple")
    def build(self, vc, c, form):
        self.curform = form
        self.m = z3.Int("m"); vc.pc.append(self.m >= 1)
        s = vc.labels("label", form, n=self.m)
        self.at = lambda v, i: s.get(i).t; self.size = lambda v: self.m
        return vc.construct(c, [s, Func(name=("builtins.tuple", "builtins.list")[vc.choice(2)])], {}, None)
    def value(self, vc, form):
        k = z3.Int("vi"); vc.pc.append(z3.And(0 <= k, k < self.m)); return vc.label(self.at(0, k))
    def legal(self, vc, r, n, generated=False):
        if generated: r = PList("list", [r])
        return super().legal(vc, r, n, generated)
    def same(self, vc, r, v, n): return super().same(vc, r, PList("list", [v]), n)


class Permutations(Strings):
    forms = ("list", "tuple", "array")
    def build(self, vc, c, form):
        self.curform = form
        self.m = z3.Int("n"); vc.pc.append(self.m >= 2)
        s = vc.labels("label", form, n=self.m)
        self.at = lambda v, i: s.get(i).t; self.size = lambda v: self.m
        return vc.construct(c, [s], {}, None)
    def n(self, vc, form): return z3.Int("n")
    def legal(self, vc, r, n, generated=False):
        e = r.get(z3.Int("i?"))
        if not isinstance(e, Opaque) or e.t is None: return [("labels", False)]
        return super().legal(vc, r, n, generated) + [("no label twice", forall2(n, lambda i, k: r.get(i).t != r.get(k).t))]
    def value(self, vc, form):
        f, g = z3.Function("vi", I, I), z3.Function("vi.inv", I, I); n = z3.Int("n")
        vc.pc.append(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < n), z3.And(0 <= f(i_), f(i_) < n, g(f(i_)) == i_)), patterns=[f(i_)]))
        return PList("list", n=n, get=lambda i: vc.label(self.at(0, f(term(i)))))
    def ensures(self, vc, a, old, r):
        if self.target.endswith(".encode") and isinstance(r, PList):
            n = z3.Int("n")
            vc.oblige(f"{self.short}: whole numbers below the length", forall(n, lambda i: z3.And(z3.IsInt(real(r.get(i))), 0 <= real(r.get(i)), real(r.get(i)) < n)))
            vc.oblige(f"{self.short}: no number twice", forall2(n, lambda i, k: real(r.get(i)) != real(r.get(k))))
        return super().ensures(vc, a, old, r)


class Bits:
    forms = ("n",)
    bools = False
    def build(self, vc, c, form):
        self.curform = form
        n = z3.Int("n"); vc.pc.append(n >= 1)
        return vc.construct(c, [n], {}, None)
    def legal(self, vc, r, n, generated=False):
        e = r.get(z3.Int("i?"))
        return [("a bit for each element", term(r.n) == n)] + ([("truth values", z3.BoolVal(isz(e) and e.sort() == B or isinstance(e, bool)))] if self.bools else [("bits", forall(n, lambda i: z3.Or(real(r.get(i)) == 0, real(r.get(i)) == 1))), ("whole numbers", z3.BoolVal(isz(e) and e.sort() == I))])
    def value(self, vc, form):
        n = z3.Int("n")
        if self.bools: f = z3.Function("v", I, B); return PList("list", n=n, get=lambda i: f(term(i)))
        f = z3.Function("v", I, I); vc.pc.append(z3.ForAll([i_], z3.Or(f(i_) == 0, f(i_) == 1), patterns=[f(i_)]))
        return PList("list", n=n, get=lambda i: f(term(i)))


class Transfers(Bits):
    repairs = roundtrip = False
    def build(self, vc, c, form):
        self.curform = form
        n = z3.Int("n"); vc.pc.append(n >= 1)
        l, u = z3.Real("tf.lb"), z3.Real("tf.ub"); vc.pc.append(z3.And(l <= 0, u >= 1))
        names = vc.repo.const(c, "SUPPORTED_TF_FUNCS")[0]
        vc.stack[-1]["cls"] = c
        names = vc.ev(names).items
        kw = dict(tf_func=names[vc.choice(len(names))], lb=l, ub=u)
        if c.name == "TransferBinaryVar": kw["all_zeros"] = bool(vc.choice(2))
        self.zeros = kw.get("all_zeros", True)
        return vc.construct(c, [n], kw, None)
    def inside(self, vc, r, n): return super().inside(vc, r, n) + [(f"{a}", b) for a, b in self.nonzero(vc, r, n)] + [("bits", forall(n, lambda i: z3.Or(real(r.get(i)) == 0, real(r.get(i)) == 1)))]
    def legal(self, vc, r, n, generated=False): return super().legal(vc, r, n, generated) + self.nonzero(vc, r, n)
    def nonzero(self, vc, r, n): return [] if self.zeros or self.bools else [("not all zero where that is excluded", z3.Not(forall(n, lambda i: real(r.get(i)) == 0)))]


def var(cls, mix, methods=("correct", "decode", "encode", "generate"), **kw):
    return [type(f"{cls}_{m}", (mix, Var), dict(target=f"{SP}{cls}.{m}", cls=cls, **kw)) for m in methods]


CONTRACTS = (var("FloatVar", Numbers) + var("IntegerVar", Numbers, integer=True) + var("StringVar", Strings) + var("CategoricalVar", Strings) + var("SequenceVar", Sequences) + var("PermutationVar", Permutations)
             + var("BinaryVar", Bits) + var("BoolVar", Bits, bools=True) + var("TransferBinaryVar", Transfers, ("correct", "decode", "generate")) + var("TransferBoolVar", Transfers, ("correct", "decode", "generate"), bools=True))
