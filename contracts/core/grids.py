"""C16: parameter grids.  Any number of grids, of any number of parameters, with any number of values each.  The i-th item of a grid is the i-th tuple of
itertools.product (the last parameter changes fastest): the value number (i div R(k)) mod size(k) of parameter k, where R(k) is the product of the sizes
of the parameters after k."""
from pydv.corelib import *
from pydv.pv import Obj, PList, PDict, Func, Opaque, PathEnd, PyExc, Cls, generator
from pydv import pv
ASSUME = ["itertools.product: item i takes value (i div R) mod size of each parameter, R the product of the sizes after it (so every combination once)",
          "keys of a dictionary are distinct; values are sequences with a fixed length and stable elements"]
T_ = "mealpy.tuner.ParameterGrid."
KEY, VALUE_ = z3.DeclareSort("Key"), z3.DeclareSort("GridValue")
K = z3.Function("parameters", I, I)                    # of grid g
SZ = z3.Function("size", I, I, I)                      # (g, k)
KEYF = z3.Function("key", I, I, KEY); KINV = z3.Function("key.inv", I, KEY, I)
VF = z3.Function("value", I, I, I, VALUE_)             # (g, k, index)
RP = z3.Function("product_of_last", I, I, I)           # (g, r): product of the last r sizes
TT = z3.Function("items_before", I, I)                 # items of the grids before g
DIV, MOD = z3.Function("quotient", I, I, I), z3.Function("remainder", I, I, I)
ISDICT = z3.Function("is_a_dictionary", I, B)
KIND = z3.Function("kind_of_values", I, I, I)          # 0 list, 1 tuple, 2 array, 3 array of more dimensions, 4 text, 5 anything else
g_, j_, k_ = z3.Int("g?"), z3.Int("j?"), z3.Int("k?")


class Star:
    def __init__(self, v): self.v = v
class Values(Opaque):
    """the values given for a parameter: a sequence or not"""
    def __init__(self, g, k): super().__init__("values"); self.g, self.k = g, k
class Entry(Opaque):
    """an element of the list of grids: a dictionary or not"""
    def __init__(self, g, d): super().__init__("grid"); self.g, self.d = g, d


class GridVC(CoreVC):
    def start(self):
        super().start()
        self.gs = []
        pc = self.pc
        G = z3.Int("number_of_grids"); self.G = G; pc.append(G >= 0)
        pc.append(z3.ForAll([g_], K(g_) >= 0, patterns=[K(g_)]))
        pc.append(z3.ForAll([g_, k_], z3.Implies(z3.And(0 <= k_, k_ < K(g_)), KINV(g_, KEYF(g_, k_)) == k_), patterns=[KEYF(g_, k_)]))
        a, b, c = z3.Int("a?"), z3.Int("b?"), z3.Int("c?")
        x, y, q, r, q2, r2, m = z3.Ints("x y q r q2 r2 m")
        # floor division, and (a div b) div c = a div (b c)
        self.lemma("nested division: the remainder", z3.Implies(z3.And(b > 0, c > 0, 0 <= r, r < b, 0 <= r2, r2 < c, q == c * q2 + r2, a == b * q + r), z3.And(0 <= a - (b * c) * q2, a - (b * c) * q2 < b * c)))
        self.lemma("nested division: the quotient is unique", z3.Implies(z3.And(m > 0, 0 <= r, r < m, 0 <= r2, r2 < m, m * x + r == m * q2 + r2), x == q2))
        pc.append(z3.ForAll([a, b], z3.Implies(b > 0, z3.And(0 <= MOD(a, b), MOD(a, b) < b, z3.Implies(a >= 0, DIV(a, b) >= 0))), patterns=[MOD(a, b)]))
        pc.append(z3.ForAll([a, b], z3.Implies(z3.And(b > 0, a >= 0), DIV(a, b) >= 0), patterns=[DIV(a, b)]))
        pc.append(z3.ForAll([a], DIV(a, 1) == a, patterns=[DIV(a, 1)]))
    def lemma(self, name, g):
        """a step of an induction over variables that occur nowhere else: proved on its own, and not kept among the facts"""
        n = len(self.pc); self.nested += 1
        try: self.oblige(name, g)
        finally: self.nested -= 1; del self.pc[n:]
    def sizes(self):
        """legal grids: every parameter has at least one value"""
        pc = self.pc
        pc.append(z3.ForAll([g_, k_], z3.Implies(z3.And(0 <= k_, k_ < K(g_)), SZ(g_, k_) >= 1), patterns=[SZ(g_, k_)]))
        pc.append(z3.ForAll([g_], RP(g_, 0) == 1, patterns=[RP(g_, 0)]))
        step = lambda g, r: RP(g, r + 1) == RP(g, r) * SZ(g, K(g) - 1 - r)
        a = z3.Int("a?")          # (instances of the definition, where they are needed: nested division with the product of the last r + 1 sizes)
        self.step = lambda g, r: self.pc.append(z3.Implies(z3.And(0 <= r, r < K(g)), z3.ForAll([a], DIV(DIV(a, RP(g, r)), SZ(g, K(g) - 1 - r)) == DIV(a, RP(g, r + 1)), patterns=[DIV(DIV(a, RP(g, r)), SZ(g, K(g) - 1 - r))])))
        r = z3.Int("r")
        self.lemma("the number of items of a grid is positive, induction step", z3.Implies(z3.And(0 <= r, r < K(g_), step(g_, r), RP(g_, r) >= 1), RP(g_, r + 1) >= 1))
        pc.append(z3.ForAll([g_, k_], z3.Implies(z3.And(0 <= k_, k_ <= K(g_)), RP(g_, k_) >= 1), patterns=[RP(g_, k_)]))
        pc.append(z3.ForAll([g_], RP(g_, K(g_)) >= 1, patterns=[K(g_)]))
        tot = lambda g: RP(g, K(g))
        pc.append(TT(0) == 0)
        self.next = lambda g: self.pc.append(z3.Implies(0 <= g, TT(g + 1) == TT(g) + tot(g)))
        below = lambda m: z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < m), TT(j_) + tot(j_) <= TT(m)))
        m = z3.Int("m")
        self.lemma("the items before grow, induction step", z3.Implies(z3.And(m >= 0, TT(m + 1) == TT(m) + tot(m), below(m)), below(m + 1)))
        hit = lambda n: z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < TT(n)), z3.Exists([j_], z3.And(0 <= j_, j_ < n, TT(j_) <= i_, i_ < TT(j_) + tot(j_)))))
        w = z3.Int("w"); has = lambda n: z3.Exists([j_], z3.And(0 <= j_, j_ < n, TT(j_) <= w, w < TT(j_) + tot(j_)))
        self.lemma("every item is one of a grid, induction step", z3.Implies(z3.And(m >= 0, TT(m + 1) == TT(m) + tot(m), z3.Implies(w < TT(m), has(m)), 0 <= w, w < TT(m + 1)), has(m + 1)))
        pc.append(z3.ForAll([i_, j_], z3.Implies(z3.And(0 <= j_, j_ < i_), TT(j_) + tot(j_) <= TT(i_)), patterns=[z3.MultiPattern(TT(j_), TT(i_))]))
        pc.append(z3.ForAll([i_], z3.Implies(0 <= i_, TT(i_) >= 0), patterns=[TT(i_)]))
    def values(self, g, k): return PList("list", n=SZ(g, k), get=lambda x: Opaque("value", VF(g, k, term(x))))
    def grid(self, g):
        g = term(g)
        if not any(z3.eq(g, x) for x in self.gs): self.gs.append(g)
        d = PDict(seq=PList("list", n=K(g), get=lambda k: PList("tuple", [Opaque("key", KEYF(g, term(k))), self.values(g, term(k))]))); d.g = g; d.frozen = True; d.distinct = True
        return d
    def grids(self): self.gs = []; return PList("list", n=self.G, get=self.grid)
    # ---- what the code makes of them
    def star(self, v): return Star(v)
    def call(self, f, args, kw, node=None):
        if any(isinstance(x, Star) for x in args) and not (isinstance(f, Func) and f.name in ("builtins.zip", "itertools.product") and len(args) == 1): raise Unsupported("*args")
        return super().call(f, args, kw, node)
    def b_zip(self, a, kw):
        if not (len(a) == 1 and isinstance(a[0], Star)): return super().b_zip(a, kw)
        v = a[0].v; e = v.get(z3.Int("i?"))
        if not (isinstance(e, PList) and e.items is not None): raise Unsupported("zip")
        self.need(term(v.n) > 0, "ValueError")          # (zip of nothing cannot be unpacked)
        return PList("list", [PList("tuple", n=v.n, get=lambda i, c=c: v.get(i).items[c]) for c in range(len(e.items))])
    def which(self, n, ln, back=False):
        """the grid whose sizes, in order (backwards), ln is"""
        for g in reversed(self.gs):
            if "?" in str(g): continue
            if pv.decide(self.pc, z3.And(n == K(g), forall(n, lambda k: ln(k) == SZ(g, K(g) - 1 - k if back else k))), 1500)[0] == "proved": return g
        return None
    def product(self, v):
        """the product of a sequence of sizes"""
        n = term(v.n); ln = lambda k: intt(v.get(k))
        if self.which(n, ln, True) is not None: g = self.which(n, ln, True); return RP(g, K(g))
        g = self.which(n, ln)
        if g is None: raise Unsupported("a product of other numbers")
        # F(r): product of the first r sizes; F(r) * (product of the last K - r) is the same for every r, so F(K) = RP(K)
        F, r = z3.Function("product_of_first", I, I, I), z3.Int("r")
        h = z3.Int("h")
        self.lemma("the product of the sizes in either order, induction step", z3.Implies(z3.And(0 <= r, r < K(h), F(h, r + 1) == F(h, r) * SZ(h, r), RP(h, K(h) - r) == RP(h, K(h) - r - 1) * SZ(h, r), F(h, r) * RP(h, K(h) - r) == RP(h, K(h))), F(h, r + 1) * RP(h, K(h) - r - 1) == RP(h, K(h))))
        return RP(g, K(g))
    def np_prod(self, a, kw): return self.product(self.seq(a[0]))
    def x_math_prod(self, o, a, kw): return self.product(self.seq(a[0]))
    def x_functools_reduce(self, o, a, kw):
        if not (isinstance(a[0], Func) and a[0].name == "operator.mul"): raise Unsupported("reduce")
        v = self.iterable(self.force(a[1]))
        if len(a) == 2: self.need(term(v.n) > 0, "TypeError")
        elif a[2] != 1: raise Unsupported("reduce")
        return self.product(v)
    def x_itertools_product(self, o, a, kw):
        if not (len(a) == 1 and isinstance(a[0], Star)) or kw: raise Unsupported("product")
        v = a[0].v; n = term(v.n); e = v.get(z3.Int("i?"))
        if not isinstance(e, PList): raise Unsupported("product")
        g = self.which(n, lambda k: term(v.get(k).n))
        if g is None: raise Unsupported("product")
        return PList("list", n=RP(g, K(g)), get=lambda i: PList("tuple", n=n, get=lambda k: v.get(k).get(MOD(DIV(term(i), RP(g, K(g) - 1 - term(k))), SZ(g, term(k))))))
    def seqsum(self, v):
        n = term(v.n)
        if pv.decide(self.pc, z3.And(n == self.G, forall(n, lambda g: intt(v.get(g)) == RP(g, K(g)))), 3000)[0] != "proved": raise Unsupported("a sum of other numbers")
        return TT(n)
    def b_divmod(self, a, kw): return PList("tuple", [self.binop(ast.FloorDiv(), *a), self.binop(ast.Mod(), *a)])
    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and isz(b) and b.sort() == I and pv.numlike(a):
            self.need(b != 0, "ZeroDivisionError")
            if pv.decide(self.pc, b > 0, 1500)[0] != "proved": raise Unsupported("division")
            return (DIV if isinstance(op, ast.FloorDiv) else MOD)(intt(a), b)
        return super().binop(op, a, b)
    # ---- dictionaries from keys: a domain and a value for each key
    def setitem(self, b, i, v):
        b = self.force(b)
        if isinstance(b, PDict) and b.seq is None and not b.items and isinstance(i, Opaque) and i.t is not None and i.t.sort() == KEY:
            if not hasattr(b, "dom"): b.dom, b.val = z3.K(KEY, z3.BoolVal(False)), z3.K(KEY, z3.Const("novalue", VALUE_))
            if not (isinstance(v, Opaque) and v.t is not None and v.t.sort() == VALUE_): raise Unsupported("value of a dictionary")
            if self.nested and b.birth < self.nested: raise Unsupported("a comprehension changes a dictionary")
            b.dom, b.val = z3.Store(b.dom, i.t, z3.BoolVal(True)), z3.Store(b.val, i.t, v.t)
            return
        if hasattr(b, "dom"): raise Unsupported("a key of another kind")
        super().setitem(b, i, v)
    def getitem(self, b, i):
        b = self.force(b)
        if isinstance(b, PDict) and hasattr(b, "dom"):
            if not (isinstance(i, Opaque) and i.t is not None and i.t.sort() == KEY): raise Unsupported("a key of another kind")
            if pv.decide(self.pc, b.dom[i.t], 1500)[0] != "proved": self.need(b.dom[i.t], "KeyError")
            return Opaque("value", b.val[i.t])
        return super().getitem(b, i)
    def contents(self, v):
        c = super().contents(v)
        if isinstance(v, PDict) and hasattr(v, "dom"): c.update(dom=v.dom, val=v.val)
        return c
    def iterable(self, it):
        if isinstance(it, PDict) and hasattr(it, "dom"): raise Unsupported("iteration over a dictionary")
        if isinstance(it, PDict) and getattr(it, "distinct", False): return self.d_keys(it, [], {})
        return super().iterable(it)
    def keysdiffer(self, d):
        if not getattr(d, "distinct", False): super().keysdiffer(d)
    def merged(self, v): return v
    # ---- entries of unknown kind (the constructor)
    def entries(self): self.gs = []; return lambda i: Entry(term(i), self.odd(term(i)))
    def odd(self, g):
        d = PDict(seq=PList("list", n=K(g), get=lambda k: PList("tuple", [Opaque("key", KEYF(g, term(k))), Values(g, term(k))]))); d.g = g; d.frozen = True; d.distinct = True
        return d
    def isinstance_(self, v, c):
        v, c = self.force(v), self.force(c)
        if isinstance(c, PList) and isinstance(v, (Values, Entry)): return z3.Or([x if isz(x) else z3.BoolVal(x) for x in (self.isinstance_(v, y) for y in c.items)])
        n = c.name.split(".")[-1] if isinstance(c, Func) and c.name else None
        if isinstance(v, Values):
            k = KIND(v.g, v.k)
            if n == "ndarray": return z3.Or(k == 2, k == 3)
            if n == "str": return k == 4
            if n == "Sequence": return z3.Or(k == 0, k == 1, k == 4)
            if n in ("list", "tuple"): return k == ("list", "tuple").index(n)
            raise Unsupported("the kind of values")
        if isinstance(v, Entry):
            if n in ("dict", "Mapping"): return ISDICT(v.g)
            if n == "Iterable": return z3.Or(ISDICT(v.g), z3.Function("is_iterable", I, B)(v.g))
            raise Unsupported("the kind of a grid")
        return super().isinstance_(v, c)
    def opaque_attr(self, b, a):
        if isinstance(b, Values):
            if a == "ndim":
                if self.branch(z3.Or(KIND(b.g, b.k) == 2, KIND(b.g, b.k) == 3)): return z3.If(KIND(b.g, b.k) == 3, z3.IntVal(2), z3.IntVal(1))
                raise PyExc("AttributeError")
            if a == "shape": return Opaque("shape")
            raise Unsupported("attribute of the values")
        if isinstance(b, Entry): return self.getattr(b.d, a)
        return super().opaque_attr(b, a)
    def b_len(self, a, kw):
        v = self.force(a[0])
        if isinstance(v, Values):
            self.assume(SZ(v.g, v.k) >= 0)
            if self.branch(KIND(v.g, v.k) == 5): raise PyExc("TypeError")
            return SZ(v.g, v.k)
        return super().b_len(a, kw)
    def typename(self, v):
        if isinstance(self.force(v), (Values, Entry)): return "object"
        return super().typename(v)
    def e_JoinedStr(self, e): return Opaque("text")


def tot(g): return RP(g, K(g))
def item(vc, d, g, i):
    """d is the i-th item of grid g"""
    if not isinstance(d, PDict) or d.default is not None or hasattr(d, "dom"): raise Unsupported("an item that is not a plain dictionary")
    if d.seq is None: return K(g) == 0 if not d.items else z3.BoolVal(False)
    kv = lambda k: d.seq.get(k)
    if d.seq.items == []: return K(g) == 0
    def same(k):
        a, b = kv(k).items
        if not (isinstance(a, Opaque) and a.t is not None and a.t.sort() == KEY and isinstance(b, Opaque) and b.t is not None and b.t.sort() == VALUE_): raise Unsupported("an item of other things")
        return z3.And(a.t == KEYF(g, k), b.t == VF(g, k, MOD(DIV(i, RP(g, K(g) - 1 - k)), SZ(g, k))))
    return z3.And(term(d.seq.n) == K(g), z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < K(g)), same(k_)), patterns=[KEYF(g, k_)]))


class Grid(Contract):
    props, make, uses = ("C16",), GridVC, ()
    def obj(self, vc):
        o = Obj(vc.repo.cls(T_[:-1])); o.f["param_grid"] = vc.grids(); vc.sizes()
        return o


def current(vc, it_k):
    g = [x for x in vc.gs if z3.eq(x, it_k)]
    return it_k
class Outer(Inv):
    """__getitem__: the index counts from the first item of the k-th grid"""
    def __init__(self): super().__init__(None)
    def goals(self, vc, env, k, n):
        if isinstance(k, int):
            xs = [x for x, v in env.items() if isz(v) and v.sort() == I]
            if not xs: raise Unsupported("the locals of the loop")
            self.x = xs[-1]; vc.ind0 = env[xs[-1]]
        k = term(k); vc.gk = k; vc.next(k)
        return [("it is over the grids", term(n) == vc.G), ("the index counts from the first item of this grid", env[self.x] == vc.ind0 - TT(k)), ("it is not negative", env[self.x] >= 0)]
    def havoc(self, vc, env, modified): env[self.x] = vc.new(self.x, I)
class Inner(Inv):
    """__getitem__: parameters are decoded from the last to the first"""
    def __init__(self): super().__init__(None)
    def goals(self, vc, env, k, n):
        if isinstance(k, int):
            ds = [d for d in env.values() if isinstance(d, PDict) and hasattr(d, "g")]
            outs = [x for x, d in env.items() if isinstance(d, PDict) and not hasattr(d, "g") and d.seq is None and not d.items]
            xs = [x for x, v in env.items() if isz(v) and v.sort() == I and x not in ("total",)]
            if len(ds) != 1 or len(outs) != 1: raise Unsupported("the locals of the loop")
            self.g, self.out = ds[0].g, outs[0]
            self.x = [x for x in xs if x == getattr(vc.loopinv.get(vc.stack[-1]["fn"].qual + "#0"), "x", None)] or xs[:1]
            self.x = self.x[0]; self.i = env[self.x]
        g, k, d = self.g, term(k), env[self.out]
        r = [("it is over the parameters", term(n) == K(g)), ("what is left of the index", env[self.x] == DIV(self.i, RP(g, k)))]
        if not hasattr(d, "dom"): return r
        done = lambda j: z3.And(d.dom[KEYF(g, j)], d.val[KEYF(g, j)] == VF(g, j, MOD(DIV(self.i, RP(g, K(g) - 1 - j)), SZ(g, j))))
        last = z3.simplify(K(g) - k); vc.step(g, k)
        return r + [("the parameters so far have their values", z3.ForAll([j_], z3.Implies(z3.And(last < j_, j_ < K(g)), done(j_)), patterns=[KEYF(g, j_)])),
                    ("the parameter decoded last has its value", z3.Implies(k > 0, done(last)))]
    def havoc(self, vc, env, modified):
        env[self.x] = vc.new(self.x, I)
        d = env[self.out]; d.dom, d.val = vc.new("dom", z3.ArraySort(KEY, B)), vc.new("val", z3.ArraySort(KEY, VALUE_))


class GetItem(Grid):
    target = T_ + "__getitem__"
    loops = {0: Outer(), 1: Inner()}
    def args(self, vc): return dict(self=self.obj(vc), ind=z3.Int("ind"))
    def requires(self, vc, a): return [("the index is not negative", a["ind"] >= 0)]
    def exceptional(self, vc, a, old, e):
        return [(f"{e.kind} only for an index past the end (IndexError)", a["ind"] >= TT(vc.G) if e.kind == "IndexError" else z3.BoolVal(False))]
    def ensures(self, vc, a, old, r):
        g = getattr(vc, "gk", None)
        if g is None: return [("an item is returned", False)]
        i = a["ind"]
        if not isinstance(r, PDict): return [("an item is returned", False)]
        return [("it is in the grid of this item", z3.And(0 <= g, g < vc.G, TT(g) <= i, i < TT(g + 1))), ("it is the item with that number", item(vc, r, g, i - TT(g)))]


def items_upto(vc, y, m, upto):
    """y holds the items of the grids before m, in order"""
    g = [("their number", term(y.n) == TT(m))]
    if y.items == []: return g
    d = lambda j, i: y.get(TT(j) + i)
    vc.next(m)
    last = z3.simplify(m - 1)          # (the last grid apart: the same statement in two parts, which the prover settles faster)
    each = lambda j: z3.Implies(z3.And(0 <= i_, i_ < tot(j)), item(vc, d(j, i_), j, i_))
    return g + [("each is the item of its place, grid after grid", z3.ForAll([j_, i_], z3.Implies(z3.And(0 <= j_, j_ < last), each(j_)))),
                ("each item of the last grid is the item of its place", z3.Implies(last >= 0, z3.ForAll([i_], each(last))))]
class Yields(Inv):
    def __init__(self): super().__init__(None)
    def goals(self, vc, env, k, n):
        if "$yield" not in env: raise Unsupported("not a generator")
        return [("it is over the grids", term(n) == vc.G)] + items_upto(vc, env["$yield"], term(k), True)
    def havoc(self, vc, env, modified):
        y = env["$yield"]
        N, kf, vf = vc.newfun("y.n", I, I), vc.newfun("y.key", I, I, KEY), vc.newfun("y.value", I, I, VALUE_)
        def get(i):
            i = term(i)
            d = PDict(seq=PList("list", n=N(i), get=lambda k: PList("tuple", [Opaque("key", kf(i, term(k))), Opaque("value", vf(i, term(k)))]))); d.frozen = True
            return d
        y.items, y._n, y._get = None, vc.new("y.len", I), get
        for x in [x for x in modified if x in env and x != "$yield"]: env[x] = unknown_like(vc, x, env[x])


class Iter(Grid):
    target = T_ + "__iter__"
    loops = {0: Yields()}
    def args(self, vc): return dict(self=self.obj(vc))
    def ensures(self, vc, a, old, r):
        if not isinstance(r, PList): return [("items are produced", False)]
        return items_upto(vc, r, vc.G, False)


class Len(Grid):
    target = T_ + "__len__"
    def args(self, vc): return dict(self=self.obj(vc))
    def ensures(self, vc, a, old, r): return [("the length is the number of items", term(r) == TT(vc.G))]


def legal(g, k): return z3.And(KIND(g, k) <= 2, SZ(g, k) >= 1)
def legals(g): return z3.And(ISDICT(g), z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < K(g)), legal(g, k_)), patterns=[KIND(g, k_)]))
class Checked(Inv):
    def __init__(self): super().__init__(None)
    def goals(self, vc, env, k, n):
        k = term(k)
        return [("it is over the grids", term(n) == vc.G), ("all so far are legal", z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < k), legals(j_))))]
    def havoc(self, vc, env, modified):
        for x in [x for x in modified if x in env]: env[x] = Opaque(x)
class CheckedValues(Inv):
    def __init__(self): super().__init__(None)
    def goals(self, vc, env, k, n):
        if isinstance(k, int):
            es = [v for v in env.values() if isinstance(v, Entry)]
            if len(es) != 1: raise Unsupported("the locals of the loop")
            self.g = es[0].g
        return [("it is over the parameters", term(n) == K(self.g)), ("all so far are legal", z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < term(k)), legal(self.g, k_)), patterns=[KIND(self.g, k_)]))]
    def havoc(self, vc, env, modified):
        for x in [x for x in modified if x in env]: env[x] = Opaque(x)


class Init(Grid):
    """param_grid: a dictionary, a sequence of objects, or something else"""
    target = T_ + "__init__"
    loops = {0: Checked(), 1: CheckedValues()}
    def args(self, vc):
        vc.pc.append(z3.ForAll([g_, k_], z3.And(0 <= KIND(g_, k_), KIND(g_, k_) <= 5, SZ(g_, k_) >= 0), patterns=[KIND(g_, k_)]))
        k = vc.choice(6)
        if k == 0: vc.assume(vc.G == 1); vc.assume(ISDICT(0)); p = self.wrap(vc, Entry(z3.IntVal(0), vc.odd(z3.IntVal(0))))
        elif k in (1, 2): p = PList(("list", "tuple")[k - 1], n=vc.G, get=vc.entries())
        elif k == 3: p = None
        elif k == 4: p = 5
        else: p = 1.5
        return dict(self=Obj(vc.repo.cls(T_[:-1])), param_grid=p)
    def wrap(self, vc, e): return e
    def bad(self, vc, a):
        if not isinstance(a["param_grid"], (PList, Entry)): return z3.BoolVal(True)
        return z3.Exists([j_], z3.And(0 <= j_, j_ < vc.G, z3.Not(legals(j_))))
    def exceptional(self, vc, a, old, e): return [("TypeError or ValueError, and only for a malformed grid", self.bad(vc, a) if e.kind in ("TypeError", "ValueError") else z3.BoolVal(False))]
    def ensures(self, vc, a, old, r):
        p, f = a["param_grid"], a["self"].f.get("param_grid")
        g = [("a malformed grid is rejected", z3.Not(self.bad(vc, a)))]
        if isinstance(p, Entry): same = isinstance(f, PList) and f.items is not None and len(f.items) == 1 and f.items[0] is p
        else: same = isinstance(f, PList) and (f is p or f.items is None and isinstance(f.get(z3.Int("i?")), Entry))
        if same and f is not p and f.items is None: same = z3.And(term(f.n) == vc.G, forall(vc.G, lambda i: f.get(i).g == i))
        return g + [("the grids are kept in order", same)]


CONTRACTS = [GetItem, Iter, Len, Init]
