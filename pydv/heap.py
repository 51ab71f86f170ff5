"""Values, heap and path conditions of the symbolic interpreter (verification-condition generator) for the optimizer classes.

Heap model: every array, agent, list and dictionary has an id from one allocation counter.  Arrays have an abstract content
con[id]; agents have a position array sol[agent] and an evaluated content tgt[agent] (the content whose objective value the
agent carries); lists have llen[list] and lel[list][i].  Scalars have no identity and no value (integers do)."""
import z3

I, B = z3.IntSort(), z3.BoolSort()
# Maps: uninterpreted sorts with read/write functions and the two read-over-write axioms (matched on reads; no extensionality).
AI, AAI = z3.DeclareSort("Map"), z3.DeclareSort("Map2")
GET1, SET1 = z3.Function("get", AI, I, I), z3.Function("set", AI, I, I, AI)
GET2, SET2 = z3.Function("get2", AAI, I, AI), z3.Function("set2", AAI, I, AI, AAI)
def _ix(k): return z3.IntVal(k) if isinstance(k, int) else k
def _get(a, k):
    k = _ix(k)
    w = SET1 if a.sort().eq(AI) else SET2
    while z3.is_app(a) and a.decl().eq(w):
        if a.arg(1).eq(k): return a.arg(2)
        if not (z3.is_int_value(a.arg(1)) and z3.is_int_value(k)): break
        a = a.arg(0)
    return (GET1 if a.sort().eq(AI) else GET2)(a, k)
z3.ExprRef.__getitem__ = _get
def Store(a, k, v): return SET1(a, _ix(k), _ix(v)) if a.sort().eq(AI) else SET2(a, _ix(k), v)
def is_get(t): return z3.is_app(t) and (t.decl().eq(GET1) or t.decl().eq(GET2))
def map_axioms():
    m, n, x, y, v, r = z3.Const("m", AI), z3.Const("n", AAI), z3.Int("x"), z3.Int("y"), z3.Int("v"), z3.Const("r", AI)
    f, g = SET1(m, x, v), SET2(n, x, r)
    return [z3.ForAll([m, x, v], GET1(f, x) == v, patterns=[f]),
            z3.ForAll([m, x, y, v], z3.Or(x == y, GET1(f, y) == GET1(m, y)), patterns=[GET1(f, y)]),
            z3.ForAll([n, x, r], GET2(g, x) == r, patterns=[g]),
            z3.ForAll([n, x, y, r], z3.Or(x == y, GET2(g, y) == GET2(n, y)), patterns=[GET2(g, y)])]
AXIOMS = map_axioms()
Feas = z3.Function("Feas", I, B)         # this content has the problem's dimension and lies inside the bounds


class Unsupported(Exception): pass
class Dead(Exception): pass               # the current path ends with an exception (partial correctness)


_n = [0]
def fresh(sort, name="k"):
    _n[0] += 1
    return z3.Const(f"{name}!{_n[0]}", sort)
def fint(name="k"): return fresh(I, name)
def fbool(name="b"): return fresh(B, name)


# ---------------------------------------------------------------- element types (inferred, flow-insensitive)
class TV:
    __slots__ = ("up", "kind", "args", "opt", "isdict", "temp")
    def __init__(self, kind=None, args=(), temp=False): self.up, self.kind, self.args, self.opt, self.isdict, self.temp = None, kind, list(args), False, False, temp
    def find(self):
        t = self
        while t.up is not None: t = t.up
        return t
    def __repr__(self):
        t = self.find()
        return f"{t.kind}{t.args if t.args else ''}{'?' if t.opt else ''}"

class Ver: n = 0                          # bumped at every type refinement, to detect that another pass is needed

def unify(a, b):
    a, b = a.find(), b.find()
    if a is b: return a
    views = [(t.kind, t.opt, t.isdict) for t in (a, b) if not t.temp]
    if a.kind is None and not a.args: a, b = b, a
    opt, d = a.opt or b.opt, a.isdict or b.isdict
    if b.kind is not None and a.kind != b.kind:
        ks = {a.kind, b.kind}
        if ks == {"sca", "opq"}: a.kind = "opq"
        elif ks == {"sca", "tup"} or ks == {"opq", "tup"} or "any" in ks or True: a.kind, a.args = "any", []
    elif b.kind is not None:
        if len(a.args) != len(b.args): a.kind, a.args = "any", []
        else:
            for x, y in zip(a.args, b.args): unify(x, y)
    if a.opt != opt: a.opt = opt
    a.isdict = d
    b.up = a
    a.temp = a.temp and b.temp
    if any(v != (a.kind, a.opt, a.isdict) for v in views): Ver.n += 1
    return a


# ---------------------------------------------------------------- values
class Val: pass
class Const(Val):
    def __init__(self, v): self.v = v
    def __repr__(self): return f"Const({self.v!r})"
class IntV(Val):
    def __init__(self, t): self.t = t
    def __repr__(self): return f"Int({self.t})"
class BoolV(Val):
    def __init__(self, t): self.t = t
    def __repr__(self): return f"Bool({self.t})"
class Sca(Val):
    def __repr__(self): return "Sca"
class StrSym(Val):                        # the direction of the problem: "min" or "max"
    def __init__(self, ismin): self.ismin = ismin
class Opq(Val):
    """An array (or unknown numeric).  t: its id, None: a fresh object nobody else can see yet.  dim1: known to be one-dimensional.
    base: ids of the arrays whose memory it may share.  feas: (only for t None) the content is feasible."""
    def __init__(self, t=None, dim1=False, base=(), feas=False, content=None): self.t, self.dim1, self.base, self.feas, self.content = t, dim1, tuple(base), feas, content
    def __repr__(self): return f"Opq({self.t}{',1' if self.dim1 else ''}{',feas' if self.feas else ''})"
class Tgt(Val):
    def __init__(self, t): self.t = t
    def __repr__(self): return f"Tgt({self.t})"
class Ag(Val):
    def __init__(self, t): self.t = t
    def __repr__(self): return f"Ag({self.t})"
class Lst(Val):
    def __init__(self, t, tv): self.t, self.tv = t, tv
    def __repr__(self): return f"Lst({self.t},{self.tv})"
class Tup(Val):
    def __init__(self, items, islist=False): self.items, self.islist = list(items), islist
    def __repr__(self): return f"Tup{self.items}"
class Rng(Val):
    def __init__(self, lo, hi, step=1): self.lo, self.hi, self.step = lo, hi, step
class Seq(Val):                           # a lazily computed iterable: get(st) -> element value of an arbitrary position (adds its constraints to st)
    def __init__(self, get, length=None, over=()): self.get, self.length, self.over = get, length, list(over)
class Obj(Val):
    def __init__(self, name, cls=None): self.name, self.cls = name, cls
    def __repr__(self): return f"Obj({self.name})"
class Fun(Val):
    def __init__(self, fn=None, self_=None, lam=None, frame=None, name=None, mod=None, cls=None): self.fn, self.self_, self.lam, self.frame, self.name, self.mod, self.cls = fn, self_, lam, frame, name, mod, cls
class ClsV(Val):
    def __init__(self, c): self.c = c
class ModV(Val):
    def __init__(self, name): self.name = name
    def __repr__(self): return f"Mod({self.name})"
class Opt(Val):
    def __init__(self, isnone, v): self.isnone, self.v = isnone, v
    def __repr__(self): return f"Opt({self.v})"
class Any_(Val):
    def __init__(self, why=""): self.why = why
    def __repr__(self): return f"Any({self.why})"
class Undef(Val):
    def __repr__(self): return "Undef"
NONE = Const(None)


# ---------------------------------------------------------------- path conditions
class PC:
    __slots__ = ("up", "f", "n")
    def __init__(self, up, f): self.up, self.f, self.n = up, f, (up.n + 1 if up else 0)
    def list(self, stop=None):
        r, p = [], self
        while p is not stop and p is not None:
            if p.f is not None: r.append(p.f)
            p = p.up
        return r[::-1]

def ancestor(pcs):
    pcs = list(pcs)
    while True:
        if all(p is pcs[0] for p in pcs): return pcs[0]
        m = max(p.n for p in pcs)
        lo = min(p.n for p in pcs)
        if m == lo: pcs = [p.up for p in pcs]
        else: pcs = [p.up if p.n == m else p for p in pcs]


HEAP = ("con", "sol", "tgt", "llen", "lel")
SORTS = dict(con=AI, sol=AI, tgt=AI, llen=AI, lel=AAI)


class State:
    def __init__(self):
        self.frames, self.objs, self.attrs = [{}], {}, {}
        self.con = self.sol = self.tgt = self.llen = self.lel = None
        self.alloc, self.pc = None, PC(None, None)

    def clone(self):
        s = State.__new__(State)
        s.frames = [dict(f) for f in self.frames]
        s.objs = {k: dict(v) for k, v in self.objs.items()}
        s.attrs = dict(self.attrs)
        for h in HEAP: setattr(s, h, getattr(self, h))
        s.alloc, s.pc = self.alloc, self.pc
        return s

    def become(self, o):
        self.frames, self.objs, self.attrs = o.frames, o.objs, o.attrs
        for h in HEAP: setattr(self, h, getattr(o, h))
        self.alloc, self.pc = o.alloc, o.pc

    def assume(self, f): self.pc = PC(self.pc, f)

    def norm(self):
        """give the current maps names (patterns need plain terms)"""
        for h in HEAP:
            t = getattr(self, h)
            if t.num_args():
                c = fresh(SORTS[h], h); self.assume(c == t); setattr(self, h, c)
        for a, t in self.attrs.items():
            if t.num_args():
                c = fresh(AI, "at_" + a); self.assume(c == t); self.attrs[a] = c
        return self

    def new(self, name="n"):
        n = fint(name)
        self.assume(n >= self.alloc)
        self.alloc = n + 1
        return n

    def wf(self, h, arr=None):
        """Well-formedness of a fresh heap array: what it refers to has been allocated."""
        x, y = z3.Int("x"), z3.Int("y")
        a = arr if arr is not None else getattr(self, h)
        if h in ("sol", "attr"): self.assume(z3.ForAll([x], a[x] < self.alloc, patterns=[a[x]]))
        elif h == "lel": self.assume(z3.ForAll([x, y], a[x][y] < self.alloc, patterns=[a[x][y]]))
        elif h == "llen": self.assume(z3.ForAll([x], a[x] >= 0, patterns=[a[x]]))

    def havoc_heap(self, names=HEAP, attrs=()):
        for h in names: setattr(self, h, fresh(SORTS[h], h))
        for a in attrs: self.attrs[a] = fresh(AI, "at_" + a)
    def wf_heap(self, names=HEAP, attrs=()):
        for h in names: self.wf(h)
        for a in attrs: self.wf("attr", self.attrs[a])


# ---------------------------------------------------------------- predicates
def content(st, v): return st.con[v]
def valid(st, r): return z3.And(st.tgt[r] == st.con[st.sol[r]], Feas(st.con[st.sol[r]]))
def feasible(st, r): return Feas(st.con[st.sol[r]])
def over(st, l, p, name="i"):
    i = z3.Int(name)
    e = st.lel[l][i]
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < st.llen[l]), p(e)), patterns=[e])
def over2(st, l, p):
    i, j = z3.Int("i"), z3.Int("j")
    g = st.lel[l][i]; e = st.lel[g][j]
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < st.llen[l], 0 <= j, j < st.llen[g]), p(e)), patterns=[e])
