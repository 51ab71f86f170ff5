"""Contract verifier for the core functions: precise symbolic execution of the real source, one path at a time, loops cut by invariants,
calls replaced by contracts (or, for functions without one, executed in place).

A function is run again for every sequence of branch decisions; objects created on a path are ordinary Python objects that the path mutates.
Sequences of unknown length are a length term and an element function; objects in them are integer references into field maps."""
import ast, time, math, os, sys, shutil, subprocess, z3
from .src import Repo, Fn, Cls

I, R, B, S = z3.IntSort(), z3.RealSort(), z3.BoolSort(), z3.StringSort()


class Unsupported(Exception): pass
class PathEnd(Exception): pass
class PyExc(Exception):
    def __init__(self, kind, msg=""): super().__init__(kind); self.kind, self.msg = kind, msg
class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception): pass
class Cont(Exception): pass


class Obj:
    """an object with known identity"""
    def __init__(self, cls, **f): self.cls, self.f, self.birth, self.frozen = cls, dict(f), 0, None      # frozen: a copy of an element, not to be changed
    def __repr__(self): return f"<{self.cls if isinstance(self.cls, str) else self.cls.name}>"
class SymObj:
    """an object of a class with field maps, known by its reference term"""
    def __init__(self, t, cls): self.t, self.cls = t, cls
    def __repr__(self): return f"<{self.cls} {self.t}>"
class PList:
    """list, tuple or array: known items, or a length and an element function"""
    def __init__(self, kind, items=None, n=None, get=None, dt=None):
        self.kind, self.items, self._n, self._get, self.dt = kind, items, n, get, dt
        self.birth, self.frozen = 0, None
    @property
    def n(self): return len(self.items) if self.items is not None else self._n
    def get(self, i):
        if self.items is None: return self._get(i)
        if isinstance(i, int): return self.items[i]
        return ite_chain(i, self.items)
    def __repr__(self): return f"{self.kind}({self.items if self.items is not None else self._n})"
class PDict:
    """default: contents unknown; seq: a dictionary of unknown size, its (key, value) pairs in order (keys may repeat, the last one counts)"""
    def __init__(self, items=None, seq=None): self.items, self.birth, self.default, self.seq, self.frozen = list(items or []), 0, None, seq, None
class Opaque:
    """a value nothing is known about, except its identity"""
    def __init__(self, name, t=None): self.name, self.t = name, t
    def __repr__(self): return f"<?{self.name}>"
class Func:
    def __init__(self, fn=None, self_=None, name=None, lam=None, env=None, mod=None, cls=None, part=None):
        self.fn, self.self_, self.name, self.lam, self.env, self.mod, self.cls, self.part = fn, self_, name, lam, env, mod, cls, part
    def __repr__(self): return f"<function {self.name or (self.fn and self.fn.qual) or 'lambda'}>"
class Module:
    def __init__(self, name): self.name = name
class Rng:
    def __init__(self, a, b, s): self.a, self.b, self.s = a, b, s
class NpNum:
    """a NumPy scalar: ty is np.int or np.float"""
    def __init__(self, v, ty): self.v, self.ty = v, ty
class Mixed:
    """an element of unknown type: kind says which (MIX), v is its value where it is a number"""
    def __init__(self, v, kind): self.v, self.kind = v, kind
MIX = ("int", "np.int", "float", "np.float", "bool", "complex", "str", "object")
class Dyn:
    """an argument of unknown type"""
    def __init__(self, name, kinds=None): self.name, self.kinds, self.v = name, kinds, None

XF = z3.Datatype("Float")
XF.declare("fin", ("val", R)); XF.declare("pinf"); XF.declare("ninf"); XF.declare("nan")
XF = XF.create()


def isz(v): return isinstance(v, z3.ExprRef)
def term(v):
    if isz(v): return v
    if isinstance(v, Dyn) and v.v is not None: return term(v.v[0])
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, float):
        if math.isnan(v): return XF.nan
        if math.isinf(v): return XF.pinf if v > 0 else XF.ninf
        return z3.RealVal(repr(v)) if "e" not in repr(v) else z3.RealVal(str(__import__("fractions").Fraction(repr(v))))
    if isinstance(v, str): return z3.StringVal(v)
    if isinstance(v, SymObj): return v.t
    if isinstance(v, (NpNum, Mixed)): return term(v.v)
    if isinstance(v, Opaque) and v.t is not None: return v.t
    raise Unsupported(f"no term for {v!r}")
def numlike(v): return isinstance(v, (bool, int, float, NpNum, Mixed)) or isz(v) and v.sort() in (I, R, B, XF)
def real(v):
    t = term(v)
    if t.sort() == R: return t
    if t.sort() == I: return z3.ToReal(t)
    if t.sort() == B: return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    raise Unsupported(f"not a real: {v}")
def intt(v):
    t = term(v)
    if t.sort() == I: return t
    if t.sort() == B: return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f"not an int: {v}")
def unify(a, b):
    a, b = term(a), term(b)
    if a.sort() == b.sort(): return a, b
    if XF in (a.sort(), b.sort()):
        up = lambda x: x if x.sort() == XF else XF.fin(real(x))
        return up(a), up(b)
    if {a.sort(), b.sort()} <= {I, R, B}:
        if R in (a.sort(), b.sort()): return real(a), real(b)
        return intt(a), intt(b)
    raise Unsupported(f"terms of different sorts: {a} {b}")
def ite_chain(i, items):
    if not items: raise Unsupported("element of an empty sequence")
    r = items[-1]
    for k in range(len(items) - 2, -1, -1): r = merge(i == k, items[k], r)
    return r
def merge(c, a, b):
    if a is b: return a
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.t is not None and b.t is not None and a.t.sort() == b.t.sort(): return Opaque(a.name, z3.If(c, a.t, b.t))
    if isinstance(a, SymObj) and isinstance(b, SymObj) and a.cls == b.cls: return SymObj(z3.If(c, a.t, b.t), a.cls)
    if isinstance(a, PList) and isinstance(b, PList) and a.items is not None and b.items is not None and len(a.items) == len(b.items) and a.kind == b.kind:
        return PList(a.kind, [merge(c, x, y) for x, y in zip(a.items, b.items)])
    if not isz(a) and not isz(b) and type(a) is type(b) and not isinstance(a, (Obj, PList, PDict, Func, Opaque, Dyn)) and a == b: return a
    if numlike(a) and numlike(b) or (isz(a) or isinstance(a, str)) and (isz(b) or isinstance(b, str)):
        x, y = unify(a, b)
        return z3.If(c, x, y)
    if a is None and b is None: return None
    if isinstance(a, PDict) and isinstance(b, PDict) and a.default is None and b.default is None and (a.seq is not None or b.seq is not None):
        def seq(d): return d.seq if d.seq is not None else PList("list", [PList("tuple", [k, v]) for k, v in d.items])
        x, y = seq(a), seq(b)
        get = y.get if x.items == [] else x.get if y.items == [] else lambda i: merge(c, x.get(i), y.get(i))
        d = PDict(seq=PList("list", n=z3.If(c, term(x.n), term(y.n)), get=get)); d.frozen = True
        return d
    raise Unsupported(f"cannot merge {a!r} and {b!r}")
def subst(v, pairs):
    if isz(v): return zsubst(v, pairs)
    if isinstance(v, SymObj): return SymObj(zsubst(v.t, pairs), v.cls)
    if isinstance(v, NpNum): return NpNum(subst(v.v, pairs), v.ty)
    if isinstance(v, Mixed): return Mixed(subst(v.v, pairs), subst(v.kind, pairs))
    if isinstance(v, PList):
        if v.items is not None: return PList(v.kind, [subst(x, pairs) for x in v.items], dt=v.dt)
        g = v._get
        r = PList(v.kind, n=subst(term(v._n), pairs), get=lambda i: subst(g(i), pairs), dt=v.dt); r.frozen = True; return r
    if isinstance(v, (bool, int, float, str)) or v is None: return v
    if isinstance(v, Opaque): return v if v.t is None else Opaque(v.name, zsubst(v.t, pairs))
    if isinstance(v, Obj):
        if not v.birth: return v                 # made outside the comprehension
        o = Obj(v.cls); o.birth, o.frozen = v.birth, True
        o.f.update({k: subst(x, pairs) for k, x in v.f.items()})
        return o
    if isinstance(v, PDict):
        d = PDict([(subst(k, pairs), subst(x, pairs)) for k, x in v.items]); d.birth, d.default, d.frozen = v.birth, v.default, True
        if v.seq is not None: d.seq = subst(v.seq, pairs)
        return d
    if isinstance(v, (Func, Cls, Module)): return v
    raise Unsupported(f"a generic element that is {v!r}")
def zsubst(t, pairs):
    """pairs: (constant, term) and (function, term over Var(0..))"""
    cs = [p for p in pairs if isz(p[0])]; fs = [p for p in pairs if not isz(p[0])]
    if cs: t = z3.substitute(t, *cs)
    return z3.substitute_funs(t, *fs) if fs else t


class Obl:
    def __init__(self, name, pc, goal, line=None): self.name, self.pc, self.goal, self.line = name, pc, goal, line


class VC:
    """one verification of one function"""
    FIELDS = {}          # class name -> {field: sort or (class of the object)}
    def __init__(self, repo, contracts, deadline=None):
        self.repo, self.contracts, self.deadline = repo, contracts, deadline
        self.obls, self.used, self.inlined, self.assumed = [], set(), set(), set()
        self.skip_contract = None
        self.solver_s = 0.0
        self.depth = 0
        self.loopinv = {}
        self.nested = 0
        self.counters = []          # (object, field): numbers that a comprehension may raise by a constant per element
        self.notes = set()

    # ------------------------------------------------------------ paths
    def explore(self, f):
        """runs f once per path; -> list of (result of f); PathEnd drops the path"""
        saved = (self.__dict__.get("prefix"), self.__dict__.get("pos"), self.__dict__.get("todo"))
        work, res = [[]], []
        n = 0
        while work:
            n += 1
            if n > 4000: raise Unsupported("too many paths")
            self.prefix, self.pos, self.todo = work.pop(), 0, []
            try: res.append(f())
            except PathEnd: pass
            work.extend(self.todo)
        self.prefix, self.pos, self.todo = saved
        return res

    def new(self, name, sort):
        self.cnt += 1
        return z3.Const(f"{name}!{self.cnt}", sort)
    def newfun(self, name, *sorts):
        self.cnt += 1
        return z3.Function(f"{name}!{self.cnt}", *sorts)

    def assume(self, g):
        if isinstance(g, bool):
            if not g: raise PathEnd()
            return
        if z3.is_true(g): return
        self.pc.append(g)

    def feasible(self, g):
        if self.deadline and time.time() > self.deadline: raise TimeoutError()
        s = z3.Solver(); s.set("rlimit", 900000); s.set("timeout", 3000)
        for p in self.pc:
            if not z3.is_quantifier(p): s.add(p)
        s.add(g)
        t0 = time.time(); r = s.check(); self.solver_s += time.time() - t0
        return r != z3.unsat

    def refuted(self, cs):
        """the conditions contradict the path (with its quantified facts)"""
        s = z3.SimpleSolver(); s.set("rlimit", 1500000); s.set("timeout", 5000); s.set("auto_config", False); s.set("smt.mbqi", False)
        for p in self.pc + list(cs): s.add(p)
        t0 = time.time(); r = s.check(); self.solver_s += time.time() - t0
        return r == z3.unsat

    def branch(self, c):
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]; self.pos += 1
        else:
            t, f = self.feasible(c), self.feasible(z3.Not(c))
            if not t and not f: raise PathEnd()
            if t and f:
                self.todo.append(self.prefix + [False]); d = True
            else: d = t
            self.prefix = self.prefix + [d]; self.pos += 1
        self.pc.append(c if d else z3.Not(c))
        return d

    def choice(self, n):
        """a free choice (all values explored)"""
        for k in range(n - 1):
            if self.pos < len(self.prefix): d = self.prefix[self.pos]; self.pos += 1
            else:
                self.todo.append(self.prefix + [False]); d = True
                self.prefix = self.prefix + [d]; self.pos += 1
            if d: return k
        return n - 1

    def oblige(self, name, goal, line=None):
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if self.pos >= len(self.prefix) or self.nested:       # not while a known prefix is replayed
            self.obls.append(Obl(name, list(self.pc), goal, line))
        self.assume(goal)

    # ------------------------------------------------------------ objects with field maps
    def fld(self, cls, a):
        f = self.FIELDS.get(cls, {})
        if a not in f: raise Unsupported(f"field {a} of {cls}")
        return f[a]
    def map(self, cls, a):
        k = f"{cls}.{a}"
        if k not in self.maps:
            so = self.fld(cls, a)
            self.maps[k] = z3.Const(f"{k}!0", z3.ArraySort(I, so if not isinstance(so, str) else I))
        return self.maps[k]
    def getf(self, o, a, maps=None):
        so = self.fld(o.cls, a)
        m = self.map(o.cls, a)
        if maps is not None: m = maps.get(f"{o.cls}.{a}", m)
        v = z3.Select(m, o.t)
        return SymObj(v, so) if isinstance(so, str) else v
    def setf(self, o, a, v):
        so = self.fld(o.cls, a)
        if self.nested and not self.is_fresh(o.t): raise Unsupported("a comprehension changes an object")
        if isinstance(so, str) and v is None: v = z3.IntVal(-1)
        elif isinstance(so, str) and not (isinstance(v, SymObj)): raise Unsupported(f"{o.cls}.{a} = {v!r}")
        elif not isinstance(so, str) and so == R: v = real(v)
        self.maps[f"{o.cls}.{a}"] = z3.Store(self.map(o.cls, a), o.t, term(v))
    def alloc_obj(self, cls, name="new"):
        t = self.new(name, I)
        self.pc.append(t >= self.alloc); self.alloc = t + 1
        self.freshrefs.append(t)
        return SymObj(t, cls)
    def is_fresh(self, t): return any(z3.eq(t, x) for x in self.freshrefs)

    # ------------------------------------------------------------ running one function
    def start(self):
        self.pc, self.maps, self.cnt, self.alloc, self.freshrefs, self.floors = [], {}, 0, z3.Int("alloc!0"), [], []
        self.pc.append(self.alloc >= 1)
        self.stack = []

    def call_fn(self, fn, self_, args, kw, node=None, cls=None):
        """executes the body"""
        if self.depth > 25: raise Unsupported("recursion")
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(args)
        if self_ is not None and not fn.static: pos = [self_] + pos
        if len(pos) > len(names):
            if not a.vararg: raise PyExc("TypeError", "arguments")
            env[a.vararg.arg] = PList("tuple", pos[len(names):]); pos = pos[:len(names)]
        elif a.vararg: env[a.vararg.arg] = PList("tuple", [])
        env.update(zip(names, pos))
        rest = []
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]: env[k] = v
            elif a.kwarg: rest.append((k, v))
            else: raise PyExc("TypeError", "keyword")
        if a.kwarg: env[a.kwarg.arg] = PDict(rest)
        ctx = dict(env=env, fn=fn, mod=fn.mod, cls=cls or fn.cls)
        self.stack.append(ctx); self.depth += 1
        try:
            df = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
            for k, d in zip([x.arg for x in a.kwonlyargs], a.kw_defaults):
                if d is not None: df[k] = d
            for k, d in df.items():
                if k not in env: env[k] = self.ev(d)
            for k in names:
                if k not in env: raise PyExc("TypeError", f"missing argument {k}")
            gen = generator(fn.node)
            if gen: env["$yield"] = self.mk("list", [])
            try: self.block(fn.node.body)
            except Ret as r: return r.v if not gen else env["$yield"]
            return None if not gen else env["$yield"]
        finally: self.stack.pop(); self.depth -= 1

    @property
    def env(self): return self.stack[-1]["env"]

    # ------------------------------------------------------------ statements
    def block(self, body):
        for s in body: self.stmt(s)

    def stmt(self, s):
        if self.deadline and time.time() > self.deadline: raise TimeoutError()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None: raise Unsupported(f"statement {type(s).__name__} (line {s.lineno})")
        m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value)
    def s_Pass(self, s): pass
    def s_Import(self, s): pass
    s_ImportFrom = s_Global = s_Import
    def s_Return(self, s): raise Ret(self.ev(s.value) if s.value else None)
    def s_Break(self, s): raise Brk()
    def s_Continue(self, s): raise Cont()
    def s_Assert(self, s):
        if not self.truth(self.ev(s.test)): raise PyExc("AssertionError")
    def s_Delete(self, s): raise Unsupported("del")
    def s_Raise(self, s):
        if s.exc is None: raise Unsupported("re-raise")
        e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        if not isinstance(e, ast.Name): raise Unsupported("raise")
        raise PyExc(e.id)
    def s_FunctionDef(self, s):
        self.env[s.name] = Func(fn=Fn(s, self.stack[-1]["mod"], None), env=self.env, mod=self.stack[-1]["mod"])
    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets: self.assign(t, v)
    def s_AnnAssign(self, s):
        if s.value is not None: self.assign(s.target, self.ev(s.value))
    def s_AugAssign(self, s):
        if isinstance(s.target, ast.Subscript):
            b, i = self.force(self.ev(s.target.value)), self.index(s.target.slice)
            i = self.force(i) if not isinstance(i, slice) else i
            v = self.ev(s.value)
            if isinstance(b, PList) and b.kind == "array" and isinstance(i, PList) and not isinstance(v, PList):
                probe = i.get(z3.Int("i?")) if i.items is None else i.items[0] if i.items else None
                if isz(probe) and probe.sort() == B:         # a mask: the marked elements change
                    self.mutate(b)
                    old = PList(b.kind, b.items, n=b._n, get=b._get)
                    b.items, b._n, b._get = None, term(old.n), lambda x: merge(term(i.get(x)), self.binop(s.op, old.get(x), v), old.get(x))
                    return
            self.setitem(b, i, self.binop(s.op, self.getitem(b, i), v)); return
        cur = self.ev(ast.copy_location(_load(s.target), s))
        v = self.ev(s.value)
        if isinstance(s.op, ast.Add) and isinstance(cur, PList) and cur.kind == "list":
            self.extend(cur, v); self.assign(s.target, cur); return
        if isinstance(cur, PList) and cur.kind == "array":
            r = self.binop(s.op, cur, v)
            self.mutate(cur); cur.items, cur._n, cur._get = r.items, r._n, r._get
            return
        self.assign(s.target, self.binop(s.op, cur, v))

    def assign(self, t, v):
        if isinstance(t, ast.Name): self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.force(v)
            if not isinstance(v, PList): raise Unsupported("unpacking")
            n = len(t.elts)
            if v.items is None: self.assume(self.need(v.n == n, "ValueError"))
            elif len(v.items) != n: raise PyExc("ValueError")
            for k, e in enumerate(t.elts): self.assign(e, v.get(k))
        elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript): self.setitem(self.ev(t.value), self.index(t.slice), v)
        else: raise Unsupported(f"assignment to {type(t).__name__}")

    def need(self, c, exc):
        """the condition, after the path on which it fails has raised exc"""
        if not self.branch(c): raise PyExc(exc)
        return True

    def s_If(self, s):
        self.block(s.body if self.truth(self.ev(s.test)) else s.orelse)

    def s_With(self, s):
        for i in s.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None: self.assign(i.optional_vars, v)
        self.block(s.body)

    def s_Try(self, s):
        try:
            self.block(s.body)
        except PyExc as e:
            for h in s.handlers:
                ns = [] if h.type is None else [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
                if h.type is None or any(isinstance(n, ast.Name) and (n.id == e.kind or n.id in ("Exception", "BaseException")) for n in ns):
                    if h.name: self.env[h.name] = Opaque("exception")
                    self.block(h.body); break
            else:
                self.block(s.finalbody); raise
            self.block(s.finalbody); return
        self.block(s.orelse); self.block(s.finalbody)

    def s_While(self, s):
        inv = self.invariant(s)
        if inv is None: raise Unsupported(f"while loop without an invariant (line {s.lineno})")
        self.cut(s, inv, None)

    def loopname(self, s):
        fn = self.stack[-1]["fn"]
        k = 0
        for n in ast.walk(fn.node):
            if isinstance(n, (ast.For, ast.While)):
                if n is s: return f"{fn.qual}#{k}"
                k += 1
    def invariant(self, s): return self.loopinv.get(self.loopname(s))

    def s_For(self, s):
        it = self.force(self.ev(s.iter))
        it = self.iterable(it)
        if it.items is not None and not self.invariant(s):
            try:
                for v in list(it.items):
                    try:
                        self.assign(s.target, v); self.block(s.body)
                    except Cont: pass
            except Brk: return
            self.block(s.orelse); return
        inv = self.invariant(s)
        if inv is None:
            if self.map_loop(s, it): return
            raise Unsupported(f"loop without an invariant (line {s.lineno} of {self.stack[-1]['fn'].qual})")
        self.cut(s, inv, it)

    def iterable(self, it):
        if isinstance(it, PList): return it
        if isinstance(it, Rng):
            if all(isinstance(x, int) for x in (it.a, it.b, it.s)): return PList("list", list(range(it.a, it.b, it.s)))
            if it.s != 1: raise Unsupported("range with a step")
            a, b = intt(it.a), intt(it.b)
            return PList("list", n=z3.If(b > a, b - a, z3.IntVal(0)), get=lambda i: a + i)
        if isinstance(it, PDict):
            if it.default is not None: raise Unsupported("iteration over an unknown dictionary")
            if it.seq is not None: raise Unsupported("iteration over a dictionary of unknown size")       # (keys may repeat)
            return PList("list", [k for k, _ in it.items])
        if isinstance(it, str): return PList("list", list(it))
        raise Unsupported(f"iteration over {it!r}")

    # ---- a loop with an invariant: inv(vc, env, k, n, at) -> [(name, goal)]; at is 'entry', 'head' or 'exit'
    def cut(self, s, inv, it):
        name = self.loopname(s)
        n = it.n if it is not None else None
        modified = assigned(s)
        env = self.env
        ghost = {}
        for nm, g in inv.goals(self, env, 0, n): self.oblige(f"{name} invariant on entry: {nm}", g, s.lineno)
        before = self.world()
        inv.havoc(self, env, modified)
        head = self.world(before)
        k = self.new("k", I)
        if self.choice(2) == 0:
            self.assume(k >= 0)
            if n is not None: self.assume(k < n)
            for nm, g in inv.goals(self, env, k, n): self.assume(g)
            if it is not None: self.assign(s.target, it.get(k))
            elif not self.truth(self.ev(s.test)): raise PathEnd()
            try: self.block(s.body)
            except Cont: pass
            except Brk: return
            self.framed(before, head, modified, s.lineno)
            for nm, g in inv.goals(self, env, k + 1, n): self.oblige(f"{name} invariant kept: {nm}", g, s.lineno)
            raise PathEnd()
        if n is not None: self.assume(k == z3.If(term(n) >= 0, term(n), z3.IntVal(0)))
        else: self.assume(k >= 0)
        for nm, g in inv.goals(self, env, k, n): self.assume(g)
        if it is None and self.truth(self.ev(s.test)): raise PathEnd()
        self.block(s.orelse)

    # ---- the frame of a loop cut by an invariant: what the body changes must have got an unknown value at the head
    def world(self, of=None):
        """the state of every object that can be reached: id -> (object, contents), and the field maps"""
        if of is not None: return {i: (o, self.contents(o)) for i, (o, _) in of[0].items()}, dict(self.maps), self.alloc
        res, todo = {}, [v for fr in self.stack for e in (fr["env"], fr.get("closure") or {}) for v in e.values()] + list(getattr(self, "roots", ()))
        while todo:
            v = todo.pop()
            if isinstance(v, Dyn) and v.v is not None: v = v.v[0]
            if isinstance(v, Func): todo += [x for x in (v.self_,) if x is not None] + list((v.part or ((), {}))[0]) + list((v.part or ((), {}))[1].values())
            if not isinstance(v, (Obj, PList, PDict)) or id(v) in res: continue
            res[id(v)] = (v, self.contents(v))
            if isinstance(v, Obj): todo += list(v.f.values())
            elif isinstance(v, PList): todo += list(v.items or ())
            else: todo += [x for _, x in v.items]
        return res, dict(self.maps), self.alloc
    def contents(self, v):
        if isinstance(v, Obj): return dict(v.f)
        if isinstance(v, PList): return {"items": v.items if v.items is None else list(v.items), "n": v._n, "get": v._get}
        return {"items": [x for kv in v.items for x in kv], "default": v.default, "seq": v.seq}
    def framed(self, before, head, modified, line):
        after = self.world(before)
        def eq(x, y):
            if x is y: return True
            if isinstance(x, list) and isinstance(y, list): return len(x) == len(y) and all(eq(a, b) for a, b in zip(x, y))
            if isz(x) and isz(y): return x.sort() == y.sort() and z3.eq(x, y)
            return type(x) is type(y) and isinstance(x, (bool, int, float, str)) and x == y
        for i, (o, a) in after[0].items():
            b, h = before[0][i][1], head[0][i][1]
            for f in set(a) | set(h):
                if not eq(a.get(f, a), h.get(f, h)) and eq(h.get(f, h), b.get(f, b)): raise Unsupported(f"the loop (line {line}) changes {f} of {o!r}, which its invariant does not cover")
        for k, m in after[1].items():
            h, b = head[1].get(k), before[1].get(k)
            if (h is None or not z3.eq(m, h)) and not (h is None and z3.eq(m, z3.Const(f"{k}!0", m.sort()))) and (h is None or b is not None and z3.eq(h, b)): raise Unsupported(f"the loop (line {line}) changes {k}, which its invariant does not cover")
        if not eq(after[2], head[2]) and eq(head[2], before[2]): raise Unsupported(f"the loop (line {line}) makes objects, which its invariant does not cover")

    # ---- a loop that only appends one element per iteration to lists is a comprehension
    def map_loop(self, s, it):
        if any(isinstance(x, (ast.Break, ast.Return, ast.While, ast.For, ast.Continue)) for b in s.body for x in ast.walk(b)): return False
        if s.orelse: return False
        apps = [x for x in ast.walk(ast.Module(s.body, [])) if isinstance(x, ast.Yield) or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "append"]
        at = {k: x.value for k, x in enumerate(s.body) if isinstance(x, ast.Expr) and any(x.value is y for y in apps)}
        if not apps or len(at) != len(apps): return False
        def owner(x):           # a local name or an attribute of one
            return isinstance(x, ast.Name) or isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name)
        ghost = ast.copy_location(ast.Name("$yield", ast.Load()), s)
        tgt = {k: x.func.value if isinstance(x, ast.Call) else ghost for k, x in at.items()}
        if not all(owner(x) for x in tgt.values()): return False
        names = [ast.unparse(x) for x in tgt.values()]
        if len(set(names)) != len(names): return False
        mine = {id(x) for x in tgt.values()}
        for b in s.body:        # the lists are used nowhere else in the body
            for x in ast.walk(b):
                if id(x) not in mine and isinstance(x, (ast.Name, ast.Attribute)) and ast.unparse(x) in names: return False
        loc = assigned(s) - set(names)
        if any(isinstance(x, ast.Attribute) and x.value.id in loc for x in tgt.values()): return False
        outs = {k: self.ev(x) for k, x in tgt.items()}
        if not all(isinstance(o, PList) and o.kind == "list" for o in outs.values()) or len({id(o) for o in outs.values()}) != len(outs): return False
        def body(v):
            saved = dict(self.env)
            try:
                for n in loc: self.env.pop(n, None)
                self.assign(s.target, v)
                r = []
                for k, x in enumerate(s.body):
                    if k in at: r.append(self.ev(at[k].args[0] if isinstance(at[k], ast.Call) else at[k].value))
                    else: self.stmt(x)
                return PList("tuple", r)
            finally:
                self.env.clear(); self.env.update(saved)
        r = self.mapseq(it, body)
        for y, out in enumerate(outs.values()): self.collected(out, r, y)
        for n in loc: self.env.pop(n, None)
        return True
    def collected(self, out, r, y):
        """the y-th elements of the tuples of r are appended to the list"""
        self.mutate(out)
        if out.items == []: out.items, out._n, out._get = None, r.n, lambda i: r.get(i).items[y]
        else: self.extend(out, PList("list", n=r.n, get=lambda i: r.get(i).items[y]))

    # ------------------------------------------------------------ comprehensions
    def mapseq(self, it, f, cond=None, kind="list"):
        """[f(x) for x in it]"""
        if it.items is not None and cond is None: return PList(kind, [f(v) for v in it.items])
        if it.items is not None:
            res = []
            for v in it.items:
                if cond(v): res.append(f(v))
            return PList(kind, res)
        if cond is not None: raise Unsupported("filter over a sequence of unknown length")
        n = it.n
        j = self.new("j", I)
        outer = (list(self.pc), dict(self.maps), self.alloc, list(self.freshrefs))
        first = self.cnt
        start = [(o, f_, o.f[f_], self.new("count", I)) for o, f_ in self.counters]
        steps = []
        def one():
            for o, f_, _, c in start: o.f[f_] = c
            self.pc, self.maps, self.alloc, self.freshrefs = list(outer[0]), dict(outer[1]), outer[2], []
            base = len(self.pc)
            self.pc += [j >= 0, j < n]
            self.nested += 1
            try:
                exc = None
                try: v = f(it.get(j))
                except PyExc as e: v, exc = None, e.kind
            finally: self.nested -= 1
            if exc is None: steps.append([z3.simplify(term(o.f[f_]) - c) for o, f_, _, c in start])
            return v, exc, self.pc[base + 2:], self.maps, self.freshrefs, self.alloc
        save = (self.prefix, self.pos, self.todo)
        obl0 = len(self.obls)
        res = self.explore(one)
        self.prefix, self.pos, self.todo = save
        if self.pos < len(self.prefix): del self.obls[obl0:]
        self.pc, self.maps, self.alloc, self.freshrefs = outer
        for x, (o, f_, v0, c) in enumerate(start):
            ds = {str(d[x]) for d in steps}
            if any(not z3.is_int_value(d[x]) for d in steps) or len(ds) > 1: raise Unsupported(f"a comprehension changes {f_} by different amounts")
            d = steps[0][x].as_long() if steps else 0
            o.f[f_] = v0 if d == 0 else term(v0) + d * z3.If(term(n) >= 0, term(n), z3.IntVal(0))
        # exceptional elements
        if len(res) > 1: res = [r for r in res if not self.refuted([j >= 0, j < n] + r[2])]
        bad = [r for r in res if r[1]]
        good = [r for r in res if not r[1]]
        if bad:
            for r in bad:
                if self.choice(2) == 0:
                    self.assume(j >= 0); self.assume(j < n)
                    for c in r[2]: self.assume(c)
                    if not self.feasible(z3.BoolVal(True)): raise PathEnd()
                    raise PyExc(r[1])
        if not good: self.assume(n == 0); return PList(kind, [])
        # constants made in the body become functions of the index
        consts, funs = {}, {}
        made = lambda nm: "!" in nm and nm.rsplit("!", 1)[1].isdigit() and int(nm.rsplit("!", 1)[1]) > first
        def collect(t):
            todo, seen = [t], set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = x.decl().name()
                    if made(nm) and not z3.eq(x, j): consts[x] = None
                elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and made(x.decl().name()): funs[x.decl()] = None
                if z3.is_quantifier(x): todo.append(x.body())
                else: todo.extend(x.children())
        for v, _, pcs, maps, fr, al in good:
            for c in pcs: collect(c)
            for x in terms_of(v): collect(x)
            for m in maps.values(): collect(m)
        fns = {c: self.newfun("at", I, c.sort()) for c in consts}
        lifted = {f: self.newfun("fat", I, *[f.domain(x) for x in range(f.arity())], f.range()) for f in funs}
        i = z3.Int("i?")
        def at(x, idx): return subst(x, [(j, idx)] + [(c, fns[c](idx)) for c in consts] + [(f, g(idx, *[z3.Var(y, f.domain(y)) for y in range(f.arity())])) for f, g in lifted.items()])
        def lift(c):
            """the fact c about the generic element, for all of them"""
            if z3.is_and(c):
                for x in c.children(): lift(x)
                return
            if not (z3.is_quantifier(c) and c.is_forall()):
                if z3.is_true(z3.simplify(c)): return
                self.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), at(c, i)))); return
            vs = [z3.Const(f"lift{x}?", c.var_sort(x)) for x in range(c.num_vars())]
            inst = lambda t: at(z3.substitute_vars(t, *reversed(vs)), i)
            body = inst(c.body())
            pats = []
            for x in range(c.num_patterns()):
                ch = [inst(t) for t in c.pattern(x).children()]
                if all(any(z3.eq(v, y) for t in ch for y in subterms(t)) for v in vs + [i]): pats.append(z3.MultiPattern(*ch) if len(ch) > 1 else ch[0])
            self.pc.append(z3.ForAll([i] + vs, z3.Implies(z3.And(0 <= i, i < n), body), patterns=pats))
        if len(good) == 1:
            v, _, pcs, maps, fr, al = good[0]
            val = v; side = z3.And([z3.BoolVal(True)] + pcs); anymap = maps
            frs = fr
        else:
            conds = [z3.And([z3.BoolVal(True)] + g[2]) for g in good]
            val = good[-1][0]
            for g, c in list(zip(good, conds))[-2::-1]: val = merge(c, g[0], val)
            side = z3.Or(conds)
            if any(g[4] for g in good): raise Unsupported("branches and new objects in a comprehension")
            maps, frs = outer[1], []
        if len(good) == 1:
            for c in good[0][2]: lift(c)
        elif not z3.is_true(z3.simplify(side)):
            self.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), at(side, i))))
        if frs:
            # objects made per element: new, pairwise different; the maps change there only
            a2 = self.new("alloc", I)
            self.pc.append(a2 >= outer[2]); self.alloc = a2
            k = z3.Int("k?")
            rs = [fns[r] if r in fns else None for r in frs]
            for x, r in enumerate(rs):
                self.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(r(i) >= outer[2], r(i) < a2)), patterns=[r(i)]))
                self.pc.append(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < n, 0 <= k, k < n, i != k), r(i) != r(k)), patterns=[z3.MultiPattern(r(i), r(k))]))
                for y in range(x):
                    q = rs[y]
                    self.pc.append(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < n, 0 <= k, k < n), r(i) != q(k)), patterns=[z3.MultiPattern(r(i), q(k))]))
            for key, m in maps.items():
                o = outer[1].get(key)
                if o is None or z3.eq(o, m):
                    if o is None:
                        self.maps[key] = z3.Const(f"{key}!0", m.sort())
                        o = self.maps[key]
                        if z3.eq(o, m): continue
                    else: continue
                new = self.new(key, m.sort()); self.maps[key] = new
                self.pc.append(z3.ForAll([i], z3.Implies(i < outer[2], new[i] == o[i]), patterns=[new[i]]))
                t = m
                while z3.is_store(t):
                    ref, val_ = t.arg(1), t.arg(2)
                    self.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), new[at(ref, i)] == at(z3.simplify(z3.Select(m, ref)), i)), patterns=[at(ref, i)]))
                    t = t.arg(0)
        else:
            for key, m in maps.items(): self.maps.setdefault(key, m)
        return PList(kind, n=n, get=lambda x, val=val: at(val, term(x)))

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None: raise Unsupported(f"expression {type(e).__name__} (line {e.lineno})")
        return m(e)

    def e_Constant(self, e): return e.value
    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(v.value); continue
            try: x = self.ev(v.value)
            except PyExc: raise
            if v.format_spec is not None or v.conversion not in (-1, 115): return Opaque("text")
            if isinstance(x, str) or isz(x) and x.sort() == S: parts.append(x)
            elif isinstance(x, int) and not isinstance(x, bool): parts.append(str(x))
            elif isz(x) and x.sort() == I: parts.append(self.int_to_str(x))
            else: return Opaque("text")
        return self.concat_str(parts)
    def int_to_str(self, t): return z3.If(t >= 0, z3.IntToStr(t), z3.Concat(z3.StringVal("-"), z3.IntToStr(-t)))
    def concat_str(self, parts):
        if all(isinstance(p, str) for p in parts): return "".join(parts)
        parts = [term(p) for p in parts if not (isinstance(p, str) and p == "")]
        return parts[0] if len(parts) == 1 else z3.Concat(*parts)
    def e_Name(self, e):
        for c in (self.stack[-1]["env"],):
            if e.id in c: return c[e.id]
        clo = self.stack[-1].get("closure")
        if clo and e.id in clo: return clo[e.id]
        return self.globalname(self.stack[-1]["mod"], e.id)
    def globalname(self, mod, name):
        r = self.repo.lookup(mod, name)
        if isinstance(r, Cls): return r
        if isinstance(r, Fn): return Func(fn=r)
        if isinstance(r, tuple):
            if r[0] == "mod": return Module(r[1])
            if r[0] == "ext": return self.extname(r[1])
            if r[0] == "const":
                self.stack.append(dict(env={}, fn=None, mod=r[2], cls=None))
                try: return self.ev(r[1])
                finally: self.stack.pop()
        if name in ("True", "False", "None"): return {"True": True, "False": False, "None": None}[name]
        if name == "__class__": return self.stack[-1]["cls"]
        if name == "__name__": return mod.name
        if name in EXC: return Func(name="exc." + name)
        return Func(name="builtins." + name)
    def extname(self, q):
        if q in CONSTS: return CONSTS[q]
        return Func(name=q)

    def e_Attribute(self, e):
        b = self.ev(e.value)
        return self.getattr(b, e.attr)

    def getattr(self, b, a):
        b = self.force(b)
        if isinstance(b, Module):
            q = f"{b.name}.{a}"
            if b.name in self.repo.mods: return self.globalname(self.repo.mods[b.name], a)
            if q in CONSTS: return CONSTS[q]
            return Func(name=q)
        if isinstance(b, Cls):
            k = self.repo.const(b, a)
            if k is not None:
                self.stack.append(dict(env={}, fn=None, mod=k[1].mod, cls=k[1]))
                try: return self.ev(k[0])
                finally: self.stack.pop()
            f = self.repo.method(b, a)
            if f is not None: return Func(fn=f, self_=b if f.classmeth else None)
            if a == "__name__": return b.name
            raise PyExc("AttributeError")
        if isinstance(b, Obj):
            if a == "__dict__": return PDict(list(b.f.items()))
            if a == "__class__": return b.cls
            if a == "__module__": return b.cls.mod.name if isinstance(b.cls, Cls) else Opaque("text")
            if a in b.f: return b.f[a]
            if a.startswith("__") and not a.endswith("__"):
                c = self.stack[-1]["cls"] if self.stack else None
                if c is not None and a in c.fns: return Func(fn=c.fns[a], self_=b)
            if isinstance(b.cls, Cls):
                f = self.repo.method(b.cls, a)
                if f is not None:
                    if f.prop: return self.call(Func(fn=f, self_=b), [], {})
                    return Func(fn=f, self_=b.cls if f.classmeth else b)
                k = self.repo.const(b.cls, a)
                if k is not None:
                    self.stack.append(dict(env={}, fn=None, mod=k[1].mod, cls=k[1]))
                    try: return self.ev(k[0])
                    finally: self.stack.pop()
            if isinstance(b.cls, str): return Func(name=f"{b.cls}.{a}", self_=b)
            if b.f.get("$open"): raise Unsupported(f"attribute {a}")
            raise PyExc("AttributeError")
        if isinstance(b, SymObj):
            h = self.symattr(b, a)
            if h is not NotImplemented: return h
            return Func(name=f"{b.cls}.{a}", self_=b)
        if isinstance(b, PList):
            if b.kind == "array":
                if a == "shape": return PList("tuple", [b.n])
                if a == "size": return b.n
                if a == "ndim": return 1
                if a == "T": return b
            return Func(name=f"{b.kind}.{a}", self_=b)
        if isinstance(b, PDict): return Func(name="dict." + a, self_=b)
        if isinstance(b, str) or isz(b) and b.sort() == S: return Func(name="str." + a, self_=b)
        if isinstance(b, Opaque): return self.opaque_attr(b, a)
        if isinstance(b, Func):
            if b.name and not b.fn and b.self_ is None:
                q = f"{b.name}.{a}"
                return CONSTS.get(q, Func(name=q))
            raise Unsupported(f"attribute {a} of {b}")
        if numlike(b): return Func(name="num." + a, self_=b)
        if b is None: raise PyExc("AttributeError")
        raise Unsupported(f"attribute {a} of {b!r}")
    def opaque_attr(self, b, a): return Func(name=f"?{b.name}.{a}", self_=b)
    def symattr(self, b, a):
        """attributes of objects in field maps: overridden by the contract library"""
        if a in self.FIELDS.get(b.cls, {}): return self.getf(b, a)
        return NotImplemented

    def setattr(self, b, a, v):
        b = self.force(b)
        if isinstance(b, Obj):
            if self.nested and not getattr(b, "birth", 0) and not any(b is o and a == f for o, f in self.counters): raise Unsupported("a comprehension changes an object")
            if isinstance(b.cls, Cls):
                f = self.repo.method(b.cls, a + ".setter")
                if f is not None: self.call(Func(fn=f, self_=b), [v], {}); return
            if b.frozen: raise Unsupported("an element of a sequence of unknown length is changed")
            b.f[a] = v
        elif isinstance(b, SymObj): self.symsetattr(b, a, v)
        elif isinstance(b, Cls): raise Unsupported("class attribute assignment")
        else: raise Unsupported(f"attribute assignment on {b!r}")
    def symsetattr(self, b, a, v): self.setf(b, a, v)

    def mutate(self, o):
        if self.nested and o.birth < self.nested: raise Unsupported("a comprehension changes a list")
        if o.frozen: raise Unsupported("an element of a sequence of unknown length is changed")

    def mk(self, kind, items=None, **kw):
        l = PList(kind, items, **kw); l.birth = self.nested
        return l

    def e_List(self, e): return self.display("list", e.elts)
    def e_Tuple(self, e): return self.display("tuple", e.elts)
    def display(self, kind, elts):
        r = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.iterable(self.force(self.ev(x.value)))
                if v.items is None: raise Unsupported("*sequence")
                r += v.items
            else: r.append(self.ev(x))
        return self.mk(kind, r)
    def e_Set(self, e): return Opaque("set")
    def e_Dict(self, e):
        r = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v)
                if not isinstance(d, PDict) or d.default or d.seq is not None: raise Unsupported("** of an unknown dictionary")
                for kk, vv in d.items: dict_set(r, kk, vv)
            else: dict_set(r, self.ev(k), self.ev(v))
        d = PDict(r); d.birth = self.nested
        return d

    def e_ListComp(self, e): return self.comp(e, "list")
    def e_GeneratorExp(self, e): return self.comp(e, "list")
    def comp(self, e, kind):
        if len(e.generators) != 1: raise Unsupported("nested comprehension")
        g = e.generators[0]
        it = self.iterable(self.force(self.ev(g.iter)))
        def run(what):
            def f(v):
                saved = dict(self.env)
                try: self.assign(g.target, v); return what()
                finally: self.env.clear(); self.env.update(saved)
            return f
        cond = None
        if g.ifs: cond = run(lambda: all(self.truth(self.ev(c)) for c in g.ifs))
        return self.mapseq(it, run(lambda: self.ev(e.elt)), cond, kind)
    def e_DictComp(self, e):
        g = e.generators[0]
        if len(e.generators) != 1: raise Unsupported("nested comprehension")
        it = self.iterable(self.force(self.ev(g.iter)))
        if it.items is None:
            if g.ifs: raise Unsupported("dictionary of unknown size")
            def pair(v):
                saved = dict(self.env)
                try: self.assign(g.target, v); return PList("tuple", [self.ev(e.key), self.ev(e.value)])
                finally: self.env.clear(); self.env.update(saved)
            d = PDict(seq=self.mapseq(it, pair)); d.birth = self.nested
            return d
        r = []
        for v in it.items:
            saved = dict(self.env)
            self.assign(g.target, v)
            if all(self.truth(self.ev(c)) for c in g.ifs): dict_set(r, self.ev(e.key), self.ev(e.value))
            self.env.clear(); self.env.update(saved)
        d = PDict(r); d.birth = self.nested
        return d

    def e_IfExp(self, e): return self.ev(e.body) if self.truth(self.ev(e.test)) else self.ev(e.orelse)
    def e_Lambda(self, e): return Func(lam=e, env=dict(self.env), mod=self.stack[-1]["mod"], cls=self.stack[-1]["cls"])
    def e_NamedExpr(self, e): v = self.ev(e.value); self.env[e.target.id] = v; return v
    def e_Starred(self, e): raise Unsupported("*")
    def e_Yield(self, e):
        if "$yield" not in self.env: raise Unsupported("yield")
        self.append(self.env["$yield"], self.ev(e.value) if e.value else None)      # (what the consumer does between two items is not seen)
        return None

    def e_BoolOp(self, e):
        v = None
        for x in e.values:
            v = self.ev(x)
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t or isinstance(e.op, ast.Or) and t: return v if not isz(v) or v.sort() != B else t
        return v if not isz(v) or v.sort() != B else self.truth(v)

    def e_UnaryOp(self, e):
        v = self.force(self.ev(e.operand))
        if isinstance(e.op, ast.Not): return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, PList): return self.elementwise(lambda x: self.neg(x), v)
            return self.neg(v)
        if isinstance(e.op, ast.UAdd): return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, PList): return self.elementwise(lambda x: z3.Not(term(x)), v)
        raise Unsupported("unary operator")
    def neg(self, v):
        if isinstance(v, (int, float)): return -v
        if isz(v) and v.sort() == XF: return z3.If(XF.is_fin(v), XF.fin(-XF.val(v)), z3.If(XF.is_pinf(v), XF.ninf, z3.If(XF.is_ninf(v), XF.pinf, XF.nan)))
        t = term(v)
        return -t

    def truth(self, v):
        v = self.force(v)
        if v is None: return False
        if isinstance(v, (bool, int, float, str)): return bool(v)
        if isinstance(v, NpNum): v = v.v; return self.truth(v)
        if isz(v):
            if v.sort() == B: return self.branch(v)
            if v.sort() in (I, R): return self.branch(v != 0)
            if v.sort() == S: return self.branch(v != z3.StringVal(""))
            if v.sort() == XF: return self.branch(v != XF.fin(z3.RealVal(0)))
        if isinstance(v, PList):
            if v.kind == "array": raise Unsupported("truth of an array")
            return self.branch(term(v.n) > 0) if v.items is None else bool(v.items)
        if isinstance(v, PDict) and v.default is None: return self.branch(term(v.seq.n) > 0) if v.seq is not None else bool(v.items)
        if isinstance(v, (Obj, SymObj, Func, Cls)): return True
        raise Unsupported(f"truth of {v!r}")

    # ---- comparison
    def e_Compare(self, e):
        l = self.ev(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r)
            c = self.compare(op, l, r)
            if len(e.ops) == 1: return c
            if not self.truth(c): return False
            res, l = True, r
        return res

    def is_(self, a, b):
        a, b = self.force(a), self.force(b)
        if a is None or b is None:
            if isinstance(a, SymObj): return a.t == -1
            if isinstance(b, SymObj): return b.t == -1
            return a is b
        if isinstance(a, SymObj) and isinstance(b, SymObj): return a.t == b.t
        if isinstance(a, (Func, Cls)) or isinstance(b, (Func, Cls)): return same_type(a, b)
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool): return a is b
            if isz(a) and a.sort() == B or isz(b) and b.sort() == B: return term(a) == term(b)
            return False
        return a is b

    def eq(self, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, NpNum): a = a.v
        if isinstance(b, NpNum): b = b.v
        if isinstance(a, PList) and isinstance(b, PList) and a.kind != "array" and b.kind != "array":
            if a.kind != b.kind: return False
            if a.items is None or b.items is None: raise Unsupported("equality of sequences")
            return len(a.items) == len(b.items) and all(self.truth(self.eq(x, y)) for x, y in zip(a.items, b.items))
        if isinstance(a, PList) and a.kind == "array" or isinstance(b, PList) and b.kind == "array": return self.elementwise(self.eq, a, b)
        if a is None or b is None: return a is b
        if isinstance(a, (Func, Cls)) or isinstance(b, (Func, Cls)): return same_type(a, b)
        if numlike(a) and numlike(b):
            if not isz(a) and not isz(b): return a == b
            x, y = unify(a, b)
            if x.sort() == XF: return z3.And(x == y, z3.Not(XF.is_nan(x)))
            return x == y
        sa, sb = isinstance(a, str) or isz(a) and a.sort() == S, isinstance(b, str) or isz(b) and b.sort() == S
        if sa and sb: return a == b if isinstance(a, str) and isinstance(b, str) else term(a) == term(b)
        if sa != sb and (numlike(a) or numlike(b) or isinstance(a, (PList, PDict)) or isinstance(b, (PList, PDict))): return False
        if isinstance(a, SymObj) and isinstance(b, SymObj): return self.symeq(a, b)
        if isz(a) and isz(b) and a.sort() == b.sort(): return a == b
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.t is not None and b.t is not None: return a.t == b.t
        if a is b and not isinstance(a, Opaque): return True
        raise Unsupported(f"equality of {a!r} and {b!r}")
    def symeq(self, a, b): raise Unsupported("equality of objects")

    def less(self, a, b, strict):
        a, b = self.force(a), self.force(b)
        if isinstance(a, NpNum): a = a.v
        if isinstance(b, NpNum): b = b.v
        if not numlike(a) or not numlike(b): raise PyExc("TypeError")
        if not isz(a) and not isz(b): return a < b if strict else a <= b
        x, y = unify(a, b)
        if x.sort() == XF:
            lt = z3.Or(z3.And(XF.is_fin(x), XF.is_fin(y), XF.val(x) < XF.val(y)), z3.And(XF.is_ninf(x), z3.Or(XF.is_fin(y), XF.is_pinf(y))), z3.And(XF.is_fin(x), XF.is_pinf(y)))
            return lt if strict else z3.Or(lt, z3.And(x == y, z3.Not(XF.is_nan(x))))
        if x.sort() == B: x, y = intt(x), intt(y)
        return x < y if strict else x <= y

    def compare(self, op, a, b):
        if isinstance(op, ast.Is): return self.is_(a, b)
        if isinstance(op, ast.IsNot): return neg_(self.is_(a, b))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else neg_(r)
        a, b = self.force(a), self.force(b)
        arr = isinstance(a, PList) and a.kind == "array" or isinstance(b, PList) and b.kind == "array"
        if isinstance(op, ast.Eq): return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            if arr: return self.elementwise(lambda x, y: neg_(self.eq(x, y)), a, b)
            return neg_(self.eq(a, b))
        f = {ast.Lt: lambda x, y: self.less(x, y, True), ast.LtE: lambda x, y: self.less(x, y, False), ast.Gt: lambda x, y: self.less(y, x, True), ast.GtE: lambda x, y: self.less(y, x, False)}[type(op)]
        if arr: return self.elementwise(f, a, b)
        return f(a, b)

    def contains(self, s, x):
        s = self.force(s)
        if isinstance(s, PDict):
            if s.default is not None: raise Unsupported("membership in an unknown dictionary")
            s = self.d_keys(s, [], {})
        if isinstance(s, Rng): s = self.iterable(s)
        if isinstance(s, PList):
            if s.items is not None:
                for y in s.items:
                    try: r = self.eq(x, y)
                    except Unsupported:
                        if x is y: return True
                        raise
                    if self.truth(r): return True
                return False
            i = z3.Int("i?")
            x = self.force(x)
            y = s.get(i)
            return z3.Exists([i], z3.And(0 <= i, i < s.n, term(self.eq(x, y)) if not isinstance(self.eq(x, y), bool) else z3.BoolVal(self.eq(x, y))))
        if isinstance(s, str) and isinstance(x, str): return x in s
        if (isinstance(s, str) or isz(s) and s.sort() == S): return z3.Contains(term(s), term(x))
        raise Unsupported(f"membership in {s!r}")

    # ---- arithmetic
    def e_BinOp(self, e): return self.binop(e.op, self.ev(e.left), self.ev(e.right))
    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, NpNum): a = a.v
        if isinstance(b, NpNum): b = b.v
        la, lb = isinstance(a, PList), isinstance(b, PList)
        if la and a.kind == "array" or lb and b.kind == "array": return self.elementwise(lambda x, y: self.binop(op, x, y), a, b)
        if isinstance(op, ast.Add) and la and lb:
            if a.kind != b.kind: raise PyExc("TypeError")
            r = self.mk(a.kind, list(a.items) if a.items is not None else None, n=a._n, get=a._get)
            self.extend(r, b)
            return r
        if isinstance(op, ast.Mult) and (la or lb):
            s, k = (a, b) if la else (b, a)
            if isinstance(k, int) and s.items is not None: return self.mk(s.kind, s.items * k)
            if s.items is not None and len(s.items) == 1:
                v = s.items[0]; k = intt(k)
                return self.mk(s.kind, None, n=z3.If(k > 0, k, z3.IntVal(0)), get=lambda i: v)
            raise Unsupported("repetition of a sequence")
        if isinstance(op, ast.Add) and (isinstance(a, str) or isz(a) and a.sort() == S):
            if not (isinstance(b, str) or isz(b) and b.sort() == S):
                if isinstance(b, Opaque): return Opaque("text")
                raise PyExc("TypeError")
            return a + b if isinstance(a, str) and isinstance(b, str) else z3.Concat(term(a), term(b))
        if isinstance(op, ast.Mod) and isinstance(a, str): return Opaque("text")
        if isinstance(a, Opaque) or isinstance(b, Opaque): return self.opaque_op(op, a, b)
        if not numlike(a) or not numlike(b):
            if la or lb or a is None or b is None or isinstance(a, (str, PDict)) or isinstance(b, (str, PDict)): raise PyExc("TypeError")
            raise Unsupported(f"arithmetic on {a!r} and {b!r}")
        if not isz(a) and not isz(b):
            try: return PYOP[type(op)](a, b)
            except ZeroDivisionError: raise PyExc("ZeroDivisionError")
        if XF in (term(a).sort(), term(b).sort()): return self.xop(op, a, b)
        t = type(op)
        if t is ast.Div:
            y = real(b)
            if self.zerodiv(): self.need(y != 0, "ZeroDivisionError")
            else: self.assume_note(y != 0, "division by zero is excluded")
            return real(a) / y
        x, y = unify(a, b)
        if x.sort() == B: x, y = intt(x), intt(y)
        if t is ast.Add: return x + y
        if t is ast.Sub: return x - y
        if t is ast.Mult: return x * y
        if t in (ast.FloorDiv, ast.Mod) and x.sort() == I:
            self.need(y != 0, "ZeroDivisionError")
            if not self.branch(y > 0): raise Unsupported("division by a negative integer")
            return x / y if t is ast.FloorDiv else x % y
        if t is ast.Mod and x.sort() == R and not isz(b):
            q = z3.ToReal(z3.ToInt(x / y)); return x - q * y
        if t is ast.Pow and isinstance(b, int) and 0 <= b <= 6:
            r = z3.RealVal(1) if x.sort() == R else z3.IntVal(1)
            for _ in range(b): r = r * term(a)
            return r
        raise Unsupported(f"operator {t.__name__}")
    def zerodiv(self): return True
    def assume_note(self, g, why): self.notes.add(why); self.assume(g)
    def opaque_op(self, op, a, b): return Opaque("value")
    def xop(self, op, a, b): raise Unsupported("arithmetic with infinities")

    def elementwise(self, f, *vs):
        vs = [self.force(v) for v in vs]
        ls = [v for v in vs if isinstance(v, PList)]
        if any(v.kind in ("list", "tuple") for v in ls): vs = [PList("array", v.items, n=v._n, get=v._get) if isinstance(v, PList) else v for v in vs]; ls = [v for v in vs if isinstance(v, PList)]
        if not ls: return f(*vs)
        con = [v for v in ls if v.items is not None]
        if len(con) == len(ls):
            n = max(len(v.items) for v in ls)
            if any(len(v.items) not in (1, n) for v in ls): raise PyExc("ValueError")
            return self.mk("array", [f(*[(v.items[k] if len(v.items) > 1 or n == 1 else v.items[0]) if isinstance(v, PList) else v for v in vs]) for k in range(n)])
        n = None
        for v in ls:
            if v.items is not None and len(v.items) == 1: continue
            if n is None: n = v.n
            elif not z3.eq(term(n), term(v.n)):
                if self.branch(term(n) == term(v.n)): continue
                raise PyExc("ValueError")         # (length 1 against n is not modelled)
        src = PList("list", n=n, get=lambda i: PList("tuple", [(v.get(i) if v.items is None or len(v.items) > 1 else v.items[0]) if isinstance(v, PList) else v for v in vs]))
        return self.mapseq(src, lambda t: f(*t.items), kind="array")

    # ---- subscripts
    def index(self, s):
        if isinstance(s, ast.Slice): return slice(self.ev(s.lower) if s.lower else None, self.ev(s.upper) if s.upper else None, self.ev(s.step) if s.step else None)
        if isinstance(s, ast.Tuple): return PList("tuple", [self.index(x) for x in s.elts])
        return self.ev(s)
    def e_Subscript(self, e): return self.getitem(self.ev(e.value), self.index(e.slice))

    def getitem(self, b, i):
        b = self.force(b)
        if isinstance(b, PList):
            n = b.n
            if isinstance(i, slice): return self.slice(b, i)
            i = self.force(i)
            if isinstance(i, NpNum): i = i.v
            if isinstance(i, PList) and b.kind == "array": return self.fancy(b, i)
            if isinstance(i, bool) or isz(i) and i.sort() == B: i = intt(i)
            if isinstance(i, int) and isinstance(n, int):
                if not -n <= i < n: raise PyExc("IndexError")
                return b.items[i]
            if not (isinstance(i, int) or isz(i) and i.sort() == I): raise PyExc("TypeError")
            i = term(i)
            if self.branch(z3.And(0 <= i, i < n)): return b.get(z3.simplify(i))
            if self.branch(z3.And(i < 0, i >= -term(n))): return b.get(z3.simplify(i + n))
            raise PyExc("IndexError")
        if isinstance(b, PDict) and b.seq is not None:
            i = self.force(i); q = z3.Int("q?")
            self.need(self.contains(b, i), "KeyError")
            c = self.new("slot", I)
            hit = lambda x: term(self.eq(b.seq.get(x).items[0], i))
            self.assume(z3.And(0 <= c, c < term(b.seq.n), hit(c)))
            self.assume(z3.ForAll([q], z3.Implies(z3.And(c < q, q < term(b.seq.n)), z3.Not(hit(q)))))
            return b.seq.get(c).items[1]
        if isinstance(b, PDict):
            for k, v in b.items:
                if self.truth(self.eq(k, i)): return v
            if b.default is not None: return b.default(self, i)
            raise PyExc("KeyError")
        if isinstance(b, str):
            if isinstance(i, slice) and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)): return b[i]
            if isinstance(i, int):
                try: return b[i]
                except IndexError: raise PyExc("IndexError")
        if isz(b) and b.sort() == S and isinstance(i, slice) and i.step is None:
            n = z3.Length(b)
            def pos(x, d):
                if x is None: return d
                x = intt(x)
                return z3.If(x < 0, z3.If(n + x < 0, z3.IntVal(0), n + x), z3.If(x > n, n, x))
            lo, hi = pos(i.start, z3.IntVal(0)), pos(i.stop, n)
            return z3.SubString(b, lo, z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        if isinstance(b, Opaque): return Opaque("element")
        if isinstance(b, SymObj): return self.symitem(b, i)
        if b is None or numlike(b): raise PyExc("TypeError")
        raise Unsupported(f"element of {b!r}")
    def symitem(self, b, i): raise Unsupported(f"element of {b!r}")
    def fancy(self, b, i): raise Unsupported("fancy index")

    def slice(self, b, s):
        if s.step is not None and s.step != 1:
            if s.step == -1 and s.start is None and s.stop is None:
                if b.items is not None: return self.mk(b.kind, b.items[::-1])
                n = b.n; g = b._get
                return self.mk(b.kind, None, n=n, get=lambda i: g(n - 1 - i))
            raise Unsupported("slice step")
        if b.items is not None and all(x is None or isinstance(x, int) for x in (s.start, s.stop)): return self.mk(b.kind, b.items[s.start:s.stop])
        n = term(b.n)
        def pos(x, d):
            if x is None: return d
            x = intt(self.force(x))
            return z3.simplify(z3.If(x < 0, z3.If(n + x < 0, z3.IntVal(0), n + x), z3.If(x > n, n, x)))
        lo, hi = pos(s.start, z3.IntVal(0)), pos(s.stop, n)
        return self.mk(b.kind, None, n=z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0))), get=lambda i: b.get(lo + i))

    def setitem(self, b, i, v):
        b = self.force(b)
        if isinstance(b, PList):
            self.mutate(b)
            if b.kind == "tuple": raise PyExc("TypeError")
            i = self.force(i) if not isinstance(i, slice) else i
            if isinstance(i, PList): return self.setmask(b, i, v)
            n = b.n
            if isinstance(i, int) and isinstance(n, int):
                if not -n <= i < n: raise PyExc("IndexError")
                b.items[i] = v; return
            if isinstance(i, slice): raise Unsupported("slice assignment")
            i = intt(i)
            self.need(z3.And(-term(n) <= i, i < n), "IndexError")
            i = z3.simplify(z3.If(i < 0, i + n, i))
            old = PList(b.kind, b.items, n=b._n, get=b._get)
            b.items, b._n, b._get = None, n, lambda x: merge(term(x) == i, v, old.get(x))
            return
        if isinstance(b, PDict):
            if self.nested and b.birth < self.nested: raise Unsupported("a comprehension changes a dictionary")
            if b.frozen or b.seq is not None: raise Unsupported("a dictionary of unknown size is changed")
            for k, (kk, _) in enumerate(b.items):
                if self.truth(self.eq(kk, i)): b.items[k] = (kk, v); return
            b.items.append((i, v)); return
        raise Unsupported(f"element assignment on {b!r}")
    def setmask(self, b, i, v):
        old = PList(b.kind, b.items, n=b._n, get=b._get)
        if i.items is not None and all(isinstance(x, bool) for x in i.items): raise Unsupported("mask")
        probe = i.get(z3.Int("i?")) if i.items is None else i.items[0]
        if isz(probe) and probe.sort() == B:
            b.items, b._n, b._get = None, old.n, lambda x: merge(term(i.get(x)), v.get(x) if isinstance(v, PList) else v, old.get(x))
        elif isz(probe) and probe.sort() == I and not isinstance(v, PList):
            q = z3.Int("q?")
            b.items, b._n, b._get = None, old.n, lambda x: merge(z3.Exists([q], z3.And(0 <= q, q < i.n, i.get(q) == x)), v, old.get(x))
        else: raise Unsupported("index array assignment")

    def extend(self, a, b):
        self.mutate(a)
        b = self.iterable(self.force(b))
        if a.items is not None and b.items is not None: a.items = a.items + b.items; return
        x = PList(a.kind, a.items, n=a._n, get=a._get); y = b; na = term(a.n)
        a.items, a._n = None, z3.simplify(na + y.n)
        if x.items == []: a._get = y.get; return
        if y.items == []: a._get = x.get; return
        if x.items is None or y.items is None or True: a._get = lambda i: merge(term(i) < na, x.get(term(i)), y.get(z3.simplify(term(i) - na)))

    def append(self, a, v):
        self.mutate(a)
        a.tail = getattr(a, "tail", []) + [v]
        if a.items is not None: a.items = a.items + [v]; return
        n, g = a._n, a._get
        a._n, a._get = z3.simplify(n + 1), lambda i: merge(term(i) == n, v, g(i))

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in self.env: return Opaque("super")
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
            return self.supercall(e)
        f = self.ev(e.func)
        args, kw = self.arguments(e)
        return self.call(f, args, kw, e)
    def arguments(self, e):
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.iterable(self.force(self.ev(a.value)))
                args += v.items if v.items is not None else [self.star(v)]
            else: args.append(self.ev(a))
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if not isinstance(v, PDict) or v.seq is not None: raise Unsupported("**")
                if v.default is not None: kw["**"] = v
                for kk, vv in v.items: kw[kk] = vv
            else: kw[k.arg] = v
        return args, kw
    def star(self, v): raise Unsupported("*args")
    def supercall(self, e):
        c = self.stack[-1]["cls"]; s = self.stack[-1]["env"].get("self")
        mro = self.repo.mro(s.cls)
        f = self.repo.method(s.cls, e.func.attr, after=c)
        args, kw = self.arguments(e)
        if f is None:
            if e.func.attr == "__init__": return None
            raise Unsupported("super")
        return self.call(Func(fn=f, self_=s), args, kw, e)

    def call(self, f, args, kw, node=None):
        f = self.force(f)
        if isinstance(f, Cls): return self.construct(f, args, kw, node)
        if not isinstance(f, Func):
            if isinstance(f, Obj): return self.call(self.getattr(f, "__call__"), args, kw, node)
            raise Unsupported(f"call of {f!r}")
        if f.part: args, kw = list(f.part[0]) + list(args), {**f.part[1], **kw}
        if f.lam is not None:
            names = [x.arg for x in f.lam.args.args]
            self.stack.append(dict(env={**f.env, **dict(zip(names, args)), **kw}, fn=self.stack[-1]["fn"], mod=f.mod, cls=f.cls))
            try: return self.ev(f.lam.body)
            finally: self.stack.pop()
        if f.fn is not None:
            if f.env is not None:
                ctx_closure = f.env
                return self.call_closure(f, args, kw)
            q = f.fn.qual
            if q in self.contracts and q != self.skip_contract or q in self.contracts and self.depth > 1 and q != self.skip_contract:
                return self.apply(self.contracts[q], f, args, kw, node)
            h = self.hook(q, f, args, kw, node)
            if h is not NotImplemented: return h
            self.inlined.add(q)
            self_ = f.self_
            if f.fn.cls is not None and not f.fn.static and self_ is None and args: self_, args = args[0], args[1:]
            return self.call_fn(f.fn, self_, args, kw, node)
        return self.external(f.name, f.self_, args, kw, node)
    def call_closure(self, f, args, kw):
        a = f.fn.node.args
        env = dict(f.env); env.update(zip([x.arg for x in a.args], args)); env.update(kw)
        self.stack.append(dict(env=env, fn=f.fn, mod=f.mod, cls=None)); self.depth += 1
        try:
            try: self.block(f.fn.node.body)
            except Ret as r: return r.v
        finally: self.stack.pop(); self.depth -= 1
    def hook(self, q, f, args, kw, node): return NotImplemented

    def apply(self, c, f, args, kw, node):
        """a call by contract"""
        fn = f.fn
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        self_ = f.self_
        pos = list(args)
        if not fn.static and fn.cls is not None and self_ is not None: pos = [self_] + pos
        d = dict(zip(names, pos)); d.update(kw)
        for n, df in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in d:
                self.stack.append(dict(env={}, fn=fn, mod=fn.mod, cls=fn.cls))
                try: d[n] = self.ev(df)
                finally: self.stack.pop()
        for n in d: d[n] = self.force(d[n]) if isinstance(d[n], Dyn) and c.force_args else d[n]
        self.used.add(fn.qual)
        for nm, g in c.requires(self, d): self.oblige(f"{c.short} requires {nm} (called from {self.stack[-1]['fn'].qual})", g, getattr(node, "lineno", None))
        return c.havoc_call(self, d)

    def construct(self, c, args, kw, node):
        q = c.qual
        h = self.hook(q, None, args, kw, node)
        if h is not NotImplemented: return h
        o = Obj(c); o.birth = self.nested
        init = self.repo.method(c, "__init__")
        if init is not None: self.call(Func(fn=init, self_=o), args, kw, node)
        return o

    # ------------------------------------------------------------ unknown types
    KINDS = ("none", "bool", "int", "float", "str", "list", "tuple", "array", "dict", "npint", "npfloat", "other")
    def force(self, v):
        if not isinstance(v, Dyn): return v
        if v.v is None:
            ks = v.kinds or self.KINDS
            k = ks[self.choice(len(ks))]
            v.v = (self.make(k, v.name),)
        return v.v[0]
    def make(self, k, name):
        if k == "none": return None
        if k == "bool": return z3.Bool(name + ".bool")
        if k == "int": return z3.Int(name + ".int")
        if k == "npint": return NpNum(z3.Int(name + ".npint"), "np.int")
        if k == "float": return z3.Const(name + ".float", XF)
        if k == "npfloat": return NpNum(z3.Const(name + ".npfloat", XF), "np.float")
        if k == "str": return z3.String(name + ".str")
        if k in ("list", "tuple", "array"):
            n = z3.Int(f"{name}.{k}.len"); self.assume(n >= 0)
            f = z3.Function(f"{name}.{k}.at", I, XF)
            return PList(k, n=n, get=lambda i: f(term(i)))
        if k == "dict": d = PDict(); d.default = lambda vc, i: Opaque("value"); return d
        if k == "other": return Opaque("object")
        if k == "complex": return Opaque("complex")
        raise Unsupported(k)

    def typename(self, v):
        v = self.force(v)
        if v is None: return "NoneType"
        if isinstance(v, bool): return "bool"
        if isinstance(v, int): return "int"
        if isinstance(v, float): return "float"
        if isinstance(v, str): return "str"
        if isinstance(v, NpNum): return v.ty
        if isz(v): return {I: "int", R: "float", XF: "float", B: "bool", S: "str"}.get(v.sort(), "object")
        if isinstance(v, PList): return {"array": "ndarray"}.get(v.kind, v.kind)
        if isinstance(v, PDict): return "dict"
        if isinstance(v, Obj): return v.cls if isinstance(v.cls, str) else v.cls
        if isinstance(v, SymObj): return v.cls
        if isinstance(v, Opaque): return "complex" if v.name == "complex" else "object"
        if isinstance(v, (Func, Cls)): return "function"
        raise Unsupported(f"type of {v!r}")

    def isinstance_(self, v, c):
        c = self.force(c)
        v = self.force(v)
        if isinstance(c, PList):
            if isinstance(v, Mixed): return z3.Or([self.isinstance_(v, x) for x in c.items])
            return any(self.isinstance_(v, x) for x in c.items)
        if isinstance(v, Mixed): return z3.Or([v.kind == k for k, t in enumerate(MIX) if self.oftype(t, c)])
        return self.oftype(self.typename(v), c)
    def oftype(self, t, c):
        """is an object of type t an instance of c"""
        if isinstance(c, Cls):
            if isinstance(t, Cls): return c in self.repo.mro(t)
            return isinstance(t, str) and t == c.name
        n = c.name.split(".")[-1] if isinstance(c, Func) and c.name else None
        if n is None: raise Unsupported("isinstance")
        if n == "Number": return t in ("bool", "int", "float", "np.int", "np.float", "complex")
        if n == "Real": return t in ("bool", "int", "float", "np.int", "np.float")
        if n == "Integral": return t in ("bool", "int", "np.int")
        if n in ("integer", "signedinteger"): return t == "np.int"
        if n == "floating": return t in ("np.float",)
        if n == "int": return t in ("int", "bool")
        if n == "float": return t in ("float", "np.float")
        if n in ("Mapping",): return t == "dict"
        if n in ("Iterable",): return t in ("dict", "list", "tuple", "ndarray", "str")
        if n in ("Sequence",): return t in ("list", "tuple", "str")
        return t == n

    # ------------------------------------------------------------ externals
    def external(self, name, self_, args, kw, node):
        h = self.ext_hook(name, self_, args, kw, node)
        if h is not NotImplemented: return h
        if name.startswith("builtins."):
            m = getattr(self, "b_" + name[9:], None)
            if m is None: raise Unsupported(f"builtin {name[9:]}")
            return m(args, kw)
        if name.startswith(("list.", "tuple.", "array.")):
            m = getattr(self, "l_" + name.split(".")[1], None)
            if m is None: raise Unsupported(name)
            return m(self_, args, kw)
        if name.startswith("dict."):
            m = getattr(self, "d_" + name[5:], None)
            if m is None: raise Unsupported(name)
            return m(self_, args, kw)
        if name.startswith("str."):
            m = getattr(self, "str_" + name[4:], None)
            if m is None: return Opaque("text")
            return m(self_, args, kw)
        if name.startswith("num."):
            if name in ("num.item", "num.copy"): return self_
        if name.startswith(("numpy.", "math.", "scipy.")):
            m = getattr(self, "np_" + name.split(".")[-1], None)
            if m is None: raise Unsupported(name)
            return m(args, kw)
        if name.startswith("operator."):
            op = {"lt": ast.Lt(), "le": ast.LtE(), "gt": ast.Gt(), "ge": ast.GtE(), "eq": ast.Eq()}.get(name[9:])
            if op is not None: return self.compare(op, *args)
            if name == "operator.mul": return self.binop(ast.Mult(), *args)
        if name == "functools.partial": return self.partial(args, kw)
        if name == "copy.deepcopy" or name == "copy.copy": return self.deepcopy(args[0])
        if name.startswith("exc."): return Opaque("exception")
        raise Unsupported(f"external function {name}")
    def ext_hook(self, name, self_, args, kw, node): return NotImplemented
    def partial(self, args, kw):
        f = args[0]
        if not isinstance(f, Func): raise Unsupported("partial")
        p = f.part or ((), {})
        return Func(f.fn, f.self_, f.name, f.lam, f.env, f.mod, f.cls, (list(p[0]) + list(args[1:]), {**p[1], **kw}))
    def deepcopy(self, v):
        v = self.force(v)
        if v is None or isinstance(v, (bool, int, float, str)) or isz(v): return v
        if isinstance(v, PList) and v.items is not None: return self.mk(v.kind, [self.deepcopy(x) for x in v.items])
        if isinstance(v, PList):
            g = v._get
            p = g(z3.Int("i?"))
            if isz(p): return self.mk(v.kind, None, n=v._n, get=g)
            if isinstance(p, Opaque): return self.mk(v.kind, None, n=v._n, get=g)
        if isinstance(v, Opaque): return Opaque(v.name, v.t)
        raise Unsupported("deepcopy")

    def b_len(self, a, kw):
        v = self.force(a[0])
        if isinstance(v, (PList,)): return v.n
        if isinstance(v, PDict) and v.default is None and v.seq is not None: self.keysdiffer(v); return v.seq.n
        if isinstance(v, PDict) and v.default is None: return len(v.items)
        if isinstance(v, str): return len(v)
        if isz(v) and v.sort() == S: return z3.Length(v)
        if isinstance(v, Rng): return self.iterable(v).n
        if numlike(v) or v is None: raise PyExc("TypeError")
        if isinstance(v, SymObj): return self.symlen(v)
        raise Unsupported(f"len of {v!r}")
    def symlen(self, v): raise Unsupported("len")
    def b_range(self, a, kw):
        a = [x.v if isinstance(x, NpNum) else x for x in map(self.force, a)]
        if len(a) == 1: return Rng(0, a[0], 1)
        return Rng(a[0], a[1], a[2] if len(a) > 2 else 1)
    def b_enumerate(self, a, kw):
        v = self.iterable(self.force(a[0]))
        if v.items is not None: return PList("list", [PList("tuple", [k, x]) for k, x in enumerate(v.items)])
        return PList("list", n=v.n, get=lambda i: PList("tuple", [i, v.get(i)]))
    def b_zip(self, a, kw):
        vs = [self.iterable(self.force(x)) for x in a]
        if all(v.items is not None for v in vs): return PList("list", [PList("tuple", list(t)) for t in zip(*[v.items for v in vs])])
        n = term(vs[0].n)
        for v in vs[1:]:
            m = term(v.n)
            if not z3.eq(n, m): n = z3.If(m < n, m, n)
        return PList("list", n=n, get=lambda i: PList("tuple", [v.get(i) for v in vs]))
    def b_isinstance(self, a, kw): return self.isinstance_(a[0], a[1])
    def b_type(self, a, kw):
        t = self.typename(a[0])
        if isinstance(t, Cls): return t
        return Func(name=("numpy.ndarray" if t == "ndarray" else "numpy.int64" if t == "np.int" else "numpy.float64" if t == "np.float" else "builtins." + t))
    def b_list(self, a, kw):
        if not a: return self.mk("list", [])
        v = self.iterable(self.force(a[0]))
        return self.mk("list", list(v.items) if v.items is not None else None, n=v._n, get=v._get)
    def b_tuple(self, a, kw):
        if not a: return self.mk("tuple", [])
        v = self.iterable(self.force(a[0]))
        return self.mk("tuple", list(v.items) if v.items is not None else None, n=v._n, get=v._get)
    def b_dict(self, a, kw):
        d = PDict(); d.birth = self.nested
        if a:
            v = self.force(a[0])
            if isinstance(v, PDict):
                if v.default is not None or v.seq is not None: raise Unsupported("copy of an unknown dictionary")
                for k, x in v.items: dict_set(d.items, k, x)
            else:
                v = self.iterable(v)
                if v.items is None:
                    if kw: raise Unsupported("dict")
                    d.seq = v; return d
                for p in v.items: dict_set(d.items, p.items[0], p.items[1])
        for k, x in kw.items(): dict_set(d.items, k, x)
        return d
    def b_int(self, a, kw):
        v = self.force(a[0])
        if isinstance(v, NpNum): v = v.v
        if isinstance(v, (bool, int)): return int(v)
        if isinstance(v, float):
            try: return int(v)
            except (ValueError, OverflowError) as e: raise PyExc(type(e).__name__)
        if isz(v):
            if v.sort() == I: return v
            if v.sort() == B: return intt(v)
            if v.sort() == R: return trunc(z3.simplify(v))
            if v.sort() == XF:
                if not self.branch(XF.is_fin(v)): raise PyExc("ValueError" if self.branch(XF.is_nan(v)) else "OverflowError")
                r = XF.val(v)
                return z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
        raise Unsupported("int()")
    def b_float(self, a, kw):
        v = self.force(a[0])
        if isinstance(v, NpNum): v = v.v
        if isinstance(v, (bool, int, float)): return float(v)
        if isinstance(v, str): return float(v)
        if isz(v):
            if v.sort() in (R, XF): return v
            return real(v)
        raise Unsupported("float()")
    def b_str(self, a, kw):
        v = self.force(a[0])
        if isinstance(v, (str, int)) and not isinstance(v, bool): return str(v)
        if isz(v) and v.sort() == S: return v
        if isz(v) and v.sort() == I: return self.int_to_str(v)
        return Opaque("text")
    def b_bool(self, a, kw): return self.truth(a[0])
    def b_abs(self, a, kw): return self.np_abs(a, kw)
    def b_min(self, a, kw): return self.extreme_of(a, kw, True)
    def b_max(self, a, kw): return self.extreme_of(a, kw, False)
    def extreme_of(self, a, kw, mn):
        if kw: raise Unsupported("min/max with options")
        if len(a) == 1:
            v = self.iterable(self.force(a[0]))
            if v.items is None: return self.extremum(v, mn)
            a = v.items
        if not a: raise PyExc("ValueError")
        r = a[0]
        for x in a[1:]:
            c = self.less(x, r, True) if mn else self.less(r, x, True)
            r = merge(c, x, r) if not isinstance(c, bool) else (x if c else r)
        return r
    def extremum(self, v, mn):
        """of a sequence of unknown length"""
        self.need(term(v.n) > 0, "ValueError")
        i = z3.Int("i?")
        e = v.get(i)
        if not isz(e): raise Unsupported("extremum")
        m = self.new("ext", e.sort()); w = self.new("w", I)
        self.assume(z3.And(0 <= w, w < v.n)); self.assume(m == v.get(w))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.n), (m <= e) if mn else (m >= e))))
        return m
    def b_sum(self, a, kw):
        v = self.iterable(self.force(a[0]))
        if v.items is None: return self.seqsum(v)
        r = a[1] if len(a) > 1 else 0
        for x in v.items: r = self.binop(ast.Add(), r, x)
        return r
    def seqsum(self, v): raise Unsupported("sum of a sequence of unknown length")
    def b_print(self, a, kw): return None
    def b_all(self, a, kw):
        v = self.iterable(self.force(a[0]))
        if v.items is not None: return all(self.truth(x) for x in v.items)
        i = z3.Int("i?"); e = v.get(i)
        if isinstance(e, bool): return True if e else term(v.n) == 0
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.n), e))
    def b_any(self, a, kw):
        v = self.iterable(self.force(a[0]))
        if v.items is not None: return any(self.truth(x) for x in v.items)
        i = z3.Int("i?"); e = v.get(i)
        if isinstance(e, bool): return False if not e else term(v.n) > 0
        return z3.Exists([i], z3.And(0 <= i, i < v.n, e))
    def b_round(self, a, kw): return Opaque("rounded")
    def b_divmod(self, a, kw): return PList("tuple", [self.binop(ast.FloorDiv(), *a), self.binop(ast.Mod(), *a)])
    def b_hasattr(self, a, kw):
        o = self.force(a[0])
        if isinstance(o, Obj):
            try: self.getattr(o, a[1]); return True
            except PyExc: return False
        raise Unsupported("hasattr")
    def b_getattr(self, a, kw):
        if not isinstance(a[1], str): raise Unsupported("getattr")
        try: return self.getattr(a[0], a[1])
        except PyExc:
            if len(a) > 2: return a[2]
            raise
    def b_setattr(self, a, kw):
        if not isinstance(a[1], str): raise Unsupported("setattr")
        self.setattr(a[0], a[1], a[2])
    def b_vars(self, a, kw): return self.getattr(a[0], "__dict__")
    def b_id(self, a, kw): return Opaque("id")
    def b_callable(self, a, kw): return isinstance(self.force(a[0]), (Func, Cls))
    def b_map(self, a, kw):
        f = a[0]; its = [self.iterable(self.force(x)) for x in a[1:]]
        if len(its) == 1: return self.mapseq(its[0], lambda v: self.call(f, [v], {}))
        return self.mapseq(self.b_zip(its, {}), lambda v: self.call(f, list(v.items), {}))
    def b_sorted(self, a, kw):
        v = self.iterable(self.force(a[0]))
        return self.sort(v, kw.get("key"), kw.get("reverse", False))
    def sort(self, v, key, reverse):
        raise Unsupported("sorted")
    def b_set(self, a, kw): return Opaque("set")
    def b_slice(self, a, kw): return slice(*a)

    def l_append(self, l, a, kw): self.append(l, a[0])
    def l_extend(self, l, a, kw): self.extend(l, a[0])
    def l_copy(self, l, a, kw): return self.mk(l.kind, list(l.items) if l.items is not None else None, n=l._n, get=l._get, dt=l.dt)
    def l_tolist(self, l, a, kw): r = self.l_copy(l, a, kw); r.kind = "list"; return r
    def l_ravel(self, l, a, kw): return self.l_copy(l, a, kw)
    l_flatten = l_ravel
    def l_astype(self, l, a, kw): return self.convert(l, a[0] if a else kw.get("dtype"))
    def l_insert(self, l, a, kw):
        if l.items is None or not isinstance(a[0], int): raise Unsupported("insert")
        self.mutate(l); x = list(l.items); x.insert(a[0], a[1]); l.items = x
    def l_pop(self, l, a, kw):
        self.mutate(l)
        i = a[0] if a else -1
        if l.items is not None and isinstance(i, int):
            if not l.items: raise PyExc("IndexError")
            x = list(l.items); v = x.pop(i); l.items = x; return v
        if i == -1:
            self.need(term(l.n) > 0, "IndexError")
            v = l.get(z3.simplify(l.n - 1)); l._n = z3.simplify(l._n - 1); return v
        raise Unsupported("pop")
    def l_index(self, l, a, kw): raise Unsupported("index")
    def l_sum(self, l, a, kw): return self.b_sum([l], {})

    def d_items(self, d, a, kw):
        if d.default is not None: raise Unsupported("items of an unknown dictionary")
        if d.seq is not None: self.keysdiffer(d); return PList("list", n=d.seq.n, get=d.seq.get)
        return PList("list", [PList("tuple", [k, v]) for k, v in d.items])
    def d_keys(self, d, a, kw):
        if d.default is not None: raise Unsupported("keys of an unknown dictionary")
        if d.seq is not None: return PList("list", n=d.seq.n, get=lambda i: d.seq.get(i).items[0])
        return PList("list", [k for k, _ in d.items])
    def d_values(self, d, a, kw):
        if d.default is not None: raise Unsupported("values of an unknown dictionary")
        if d.seq is not None: self.keysdiffer(d); return PList("list", n=d.seq.n, get=lambda i: d.seq.get(i).items[1])
        return PList("list", [v for _, v in d.items])
    def keysdiffer(self, d):
        q, r = z3.Int("q?"), z3.Int("r?")
        if d.seq.n is not None: self.oblige("the keys of the dictionary are pairwise different", z3.ForAll([q, r], z3.Implies(z3.And(0 <= q, q < r, r < term(d.seq.n)), z3.Not(term(self.eq(d.seq.get(q).items[0], d.seq.get(r).items[0]))))))
    def d_get(self, d, a, kw):
        try: return self.getitem(d, a[0])
        except PyExc: return a[1] if len(a) > 1 else None
    def d_copy(self, d, a, kw):
        if d.seq is not None: raise Unsupported('a dictionary of unknown size')
        r = PDict(d.items); r.default = d.default; r.birth = self.nested; return r
    def d_update(self, d, a, kw):
        if d.seq is not None: raise Unsupported('a dictionary of unknown size')
       
        if a and a[0].seq is not None: raise Unsupported('a dictionary of unknown size')
        for k, v in (a[0].items if a else []): self.setitem(d, k, v)
        for k, v in kw.items(): self.setitem(d, k, v)
    def d_pop(self, d, a, kw):
        if d.seq is not None: raise Unsupported('a dictionary of unknown size')
       
        for k, (kk, v) in enumerate(d.items):
            if self.truth(self.eq(kk, a[0])): del d.items[k]; return v
        if len(a) > 1: return a[1]
        raise PyExc("KeyError")

    def str_endswith(self, s, a, kw):
        if isinstance(s, str) and isinstance(a[0], str): return s.endswith(a[0])
        return z3.SuffixOf(term(a[0]), term(s))
    def str_startswith(self, s, a, kw):
        if isinstance(s, str) and isinstance(a[0], str): return s.startswith(a[0])
        return z3.PrefixOf(term(a[0]), term(s))
    def str_lower(self, s, a, kw): return s.lower() if isinstance(s, str) else Opaque("text")

    # ---- numpy on arrays with real elements
    def seq(self, v):
        v = self.force(v)
        if isinstance(v, PList): return v
        raise Unsupported(f"array of {v!r}")
    def convert(self, v, dt):
        dt = self.force(dt) if dt is not None else None
        n = dt.name.split(".")[-1] if isinstance(dt, Func) and dt.name else None
        v = self.force(v)
        if numlike(v): return v
        if isinstance(v, (Rng,)): v = self.iterable(v)
        f = {None: lambda x: x, "float": lambda x: self.b_float([x], {}), "float64": lambda x: self.b_float([x], {}), "int": lambda x: self.b_int([x], {}), "int64": lambda x: self.b_int([x], {}), "object": lambda x: x, "str": lambda x: x}.get(n)
        if f is None: raise Unsupported("dtype")
        v = self.seq(v)
        r = self.mapseq(v, f, kind="array") if n not in (None, "object", "str") else self.mk("array", list(v.items) if v.items is not None else None, n=v._n, get=v._get)
        r.kind = "array"
        return r
    def np_array(self, a, kw): return self.convert(a[0], kw.get("dtype", a[1] if len(a) > 1 else None))
    def np_asarray(self, a, kw): return self.np_array(a, kw)
    def np_abs(self, a, kw):
        def f(x):
            x = self.force(x)
            if isinstance(x, NpNum): x = x.v
            if isinstance(x, (int, float)): return abs(x)
            if x.sort() == XF: return z3.If(XF.is_fin(x), XF.fin(z3.If(XF.val(x) >= 0, XF.val(x), -XF.val(x))), z3.If(XF.is_nan(x), x, XF.pinf))
            return z3.If(x >= 0, x, -x) if x.sort() != B else intt(x)
        return self.elementwise(f, a[0])
    np_absolute = np_fabs = np_abs
    def np_clip(self, a, kw):
        def f(x, l, u):
            x, l, u = real(x), real(l), real(u)
            m = z3.If(x < l, l, x)
            return z3.If(m > u, u, m)
        return self.elementwise(f, *a[:3])
    def floor(self, x):
        x = z3.simplify(real(x))
        if not self.nested:
            for t, k in self.floors:
                if z3.eq(t, x): return k
        k = self.new("floor", I); self.assume(z3.And(z3.ToReal(k) <= x, x < z3.ToReal(k) + 1))
        if not self.nested: self.floors.append((x, k))
        return k
    def np_floor(self, a, kw): return self.elementwise(lambda x: float(math.floor(x)) if isinstance(x, (int, float)) else z3.ToReal(self.floor(x)), a[0])
    def np_ceil(self, a, kw):
        def f(x):
            if isinstance(x, (int, float)): return float(math.ceil(x))
            k = self.floor(x); return z3.ToReal(z3.If(z3.ToReal(k) == real(x), k, k + 1))
        return self.elementwise(f, a[0])
    def np_where(self, a, kw):
        if len(a) != 3: raise Unsupported("where")
        return self.elementwise(lambda c, x, y: merge(term(c), x, y) if not isinstance(c, bool) else (x if c else y), *a)
    def np_all(self, a, kw): return self.b_all(a, {})
    def np_any(self, a, kw): return self.b_any(a, {})
    def np_sum(self, a, kw): return self.b_sum(a[:1], {})
    def np_square(self, a, kw): return self.elementwise(lambda x: real(x) * real(x), a[0])
    def np_isinf(self, a, kw): return self.elementwise(lambda x: self.xtest(x, lambda y: z3.Or(XF.is_pinf(y), XF.is_ninf(y)), math.isinf), a[0])
    def np_isfinite(self, a, kw): return self.elementwise(lambda x: self.xtest(x, lambda y: XF.is_fin(y), math.isfinite, True), a[0])
    def xtest(self, x, f, py, other=False):
        x = self.force(x)
        if isinstance(x, (NpNum, Mixed)): x = x.v
        if isz(x) and x.sort() == XF: return f(x)
        if isz(x): return other
        if isinstance(x, (int, float)): return py(x)
        raise PyExc("TypeError")
    def np_isnan(self, a, kw): return self.elementwise(lambda x: XF.is_nan(x) if isz(x) and x.sort() == XF else z3.BoolVal(False), a[0])
    def np_concatenate(self, a, kw):
        v = self.iterable(self.force(a[0]))
        if v.items is None: raise Unsupported("concatenate")
        r = self.mk("array", [])
        for x in v.items: self.extend(r, x)
        return r
    def np_zeros(self, a, kw): return self.const_array(a[0], 0.0)
    def np_ones(self, a, kw):
        dt = kw.get("dtype")
        if isinstance(dt, Func) and dt.name == "builtins.bool": return self.const_array(a[0], z3.BoolVal(True))
        return self.const_array(a[0], 1.0)
    def const_array(self, n, v):
        n = self.force(n)
        if isinstance(n, int): return self.mk("array", [v] * n)
        return self.mk("array", None, n=intt(n), get=lambda i: v)
    def np_max(self, a, kw): return self.extreme_of(a[:1], {}, False)
    def np_min(self, a, kw): return self.extreme_of(a[:1], {}, True)
    np_amax, np_amin = np_max, np_min


def _load(t):
    import copy
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"): n.ctx = ast.Load()
    return t
def assigned(s):
    r = set()
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): r.add(n.id)
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name): r.add(n.target.id)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in ("append", "extend", "insert", "pop", "remove", "update"): r.add(n.func.value.id)
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    while isinstance(x, (ast.Subscript, ast.Starred)):       # x[i].a = v changes an object, not x (see framed); x[y[i]] = v does not change y
                        if isinstance(x.value, ast.Name) and isinstance(x, ast.Subscript): r.add(x.value.id)
                        x = x.value
    return r
def trunc(v):
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE: return z3.If(v.arg(0), trunc(v.arg(1)), trunc(v.arg(2)))
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL: return v.arg(0)
    if z3.is_rational_value(v) and v.denominator_as_long() == 1: return z3.IntVal(v.numerator_as_long())
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
def subterms(t):
    todo, res = [t], []
    while todo: x = todo.pop(); res.append(x); todo += x.children()
    return res
def generator(f):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f) if x is not f)
def neg_(c): return not c if isinstance(c, bool) else z3.Not(c)
def dict_set(items, k, v):
    for i, (kk, _) in enumerate(items):
        if not isz(k) and not isz(kk) and type(k) is type(kk) and isinstance(k, (str, int, float, bool)) and k == kk: items[i] = (kk, v); return
    items.append((k, v))
def same_type(a, b):
    if isinstance(a, Cls) or isinstance(b, Cls): return a is b
    if isinstance(a, Func) and isinstance(b, Func):
        if a.fn or b.fn: return a.fn is b.fn
        return a.name == b.name
    return False
def terms_of(v):
    if isz(v): return [v]
    if isinstance(v, SymObj): return [v.t]
    if isinstance(v, NpNum): return terms_of(v.v)
    if isinstance(v, PList):
        if v.items is not None: return [t for x in v.items for t in terms_of(x)]
        return terms_of(term(v._n)) + terms_of(v._get(z3.Int("probe?")))
    if isinstance(v, Opaque) and v.t is not None: return [v.t]
    if isinstance(v, Obj): return [t for x in v.f.values() for t in terms_of(x)]
    if isinstance(v, PDict): return [t for k, x in v.items for t in terms_of(k) + terms_of(x)] + (terms_of(v.seq) if v.seq is not None else [])
    return []
import operator as _o
PYOP = {ast.Add: _o.add, ast.Sub: _o.sub, ast.Mult: _o.mul, ast.Div: _o.truediv, ast.FloorDiv: _o.floordiv, ast.Mod: _o.mod, ast.Pow: _o.pow, ast.BitAnd: _o.and_, ast.BitOr: _o.or_}
CONSTS = {"numpy.inf": float("inf"), "numpy.nan": float("nan"), "numpy.pi": math.pi, "math.pi": math.pi, "numpy.e": math.e, "math.inf": float("inf")}
EXC = {"ValueError", "TypeError", "KeyError", "IndexError", "AttributeError", "Exception", "NotImplementedError", "RuntimeError", "ZeroDivisionError", "AssertionError", "StopIteration"}


class Contract:
    """target: qualified name; props: the properties it is evidence for.  args(vc) builds the inputs; requires/ensures are lists of (name, term)."""
    target, props, force_args, exc = None, (), False, ("ValueError",)
    loops = {}
    def __init__(self): self.short = self.target.split("mealpy.", 1)[-1]
    def requires(self, vc, a): return []
    def ensures(self, vc, a, old, ret): return []
    def raises(self, vc, a): return None        # condition under which the call raises (None: never raises)
    def result(self, vc, a): raise Unsupported(f"no result model for {self.target}")
    def havoc(self, vc, a): pass
    def snapshot(self, vc, a): return dict(maps=dict(vc.maps), alloc=vc.alloc)
    def havoc_call(self, vc, a):
        r = self.raises(vc, a)
        if r is not None and vc.branch(r): raise PyExc("ValueError")
        old = self.snapshot(vc, a)
        self.havoc(vc, a)
        ret = self.result(vc, a)
        for _, g in self.ensures(vc, a, old, ret): vc.assume(g)
        return ret


def decide(pc, goal, timeout=8000):
    """-> ('proved'|'refuted'|'unknown', model or None, seconds)"""
    t0 = time.time()
    for cfg in ("default", "pattern", "seed"):
        s = z3.Solver() if cfg != "pattern" else z3.SimpleSolver()
        s.set("rlimit", timeout * 3000); s.set("timeout", 6 * timeout)         # a limit on the steps of the solver: the answer does not depend on the load of the machine
        if cfg == "pattern": s.set("auto_config", False); s.set("smt.mbqi", False)
        if cfg == "seed": s.set("random_seed", 7)
        for p in pc: s.add(p)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat: return "proved", None, time.time() - t0
        if r == z3.sat: return "refuted", s.model(), time.time() - t0
    if timeout > 2000 and commandline(s, max(5, timeout // 2000)): return "proved", None, time.time() - t0
    return "unknown", None, time.time() - t0


def commandline(s, secs):
    """the stand-alone z3 settles some goals (mixed integer and real arithmetic, quantifiers) on which the library gives up"""
    new, text = shutil.which("z3-new") or os.path.join(sys.prefix, "bin", "z3"), s.sexpr() + "\n(check-sat)\n"
    for exe, *opts in ((new,), (new, "smt.arith.nl=false"), (shutil.which("z3"), "smt.mbqi=false", "auto_config=false"), (shutil.which("z3"),)):
        if exe is None: continue
        try: r = subprocess.run([exe, "-in", f"-T:{6 * secs}", f"rlimit={3000000 * secs}", *opts], input=text, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=6 * secs + 5)
        except (OSError, subprocess.TimeoutExpired): continue
        if r.stdout.split() == ["unsat"]: return True
        if r.stdout.split() == ["sat"]: return False
    return False


def verify(repo, contracts, c, make=VC, deadline=None, prove=decide):
    """-> dict(obligations=[(name, status, model, line)], ...)"""
    m, _, n = c.target.rpartition(".")
    fn = None
    if m in repo.mods: fn = repo.mods[m].fns.get(n)
    else:
        mm, _, k = m.rpartition(".")
        if mm in repo.mods and k in repo.mods[mm].classes: fn = repo.method(repo.mods[mm].classes[k], n)
    res = dict(target=c.target, props=sorted(c.props))
    if fn is None: return dict(res, status="missing", why="the function does not exist", obligations=[])
    if getattr(c, "uses", None) is not None: contracts = {k: v for k, v in contracts.items() if k in c.uses}
    vc = make(repo, contracts, deadline)
    vc.skip_contract = fn.qual
    vc.loopinv = {f"{fn.qual}#{k}" if isinstance(k, int) else k: v for k, v in c.loops.items()}
    ends, normal = [0], []
    def path():
        vc.start()
        a = c.args(vc)
        for nm, g in c.requires(vc, a): vc.assume(g)
        old = c.snapshot(vc, a)
        r = c.raises(vc, a)
        self_ = a.get("self")
        names = [x.arg for x in fn.node.args.args]
        kw = {k: v for k, v in a.items() if k != "self" and not k.startswith("$")}
        vc.stack.append(dict(env={}, fn=fn, mod=fn.mod, cls=fn.cls))
        try:
            ret = vc.call_fn(fn, self_, [], kw)
        except PyExc as e:
            ends[0] += 1
            ok = c.exceptional(vc, a, old, e) if hasattr(c, "exceptional") else [(f"raises {e.kind} only where the contract says so", r if r is not None and e.kind in c.exc else z3.BoolVal(False))]
            for nm, g in ok: vc.oblige(f"{c.short}: {nm}", g)
            return
        except Unsupported as e:
            if not vc.feasible(z3.BoolVal(True)): raise PathEnd()
            raise
        ends[0] += 1
        if r is not None: vc.oblige(f"{c.short}: returns normally only where the contract says so", neg_(r))
        ok0 = list(vc.pc)
        for nm, g in c.ensures(vc, a, old, ret): vc.oblige(f"{c.short}: {nm}", g)
        normal.append(ok0)
    try:
        vc.explore(path)
    except Unsupported as e: return dict(res, status="unsupported", why=str(e)[:300], obligations=[], solver=vc.solver_s)
    except TimeoutError: return dict(res, status="timeout", why="time", obligations=[], solver=vc.solver_s)
    out = []
    # the assumptions of the last normal path must not be contradictory
    for pc in normal[-1:]:
        s = z3.Solver(); s.set("rlimit", 4500000); s.set("timeout", 15000)
        for x in pc: s.add(x)
        if s.check() == z3.unsat: return dict(res, status="fail", obligations=[(f"{c.short}: the assumptions of the proof are contradictory", "vacuous", None, None)], solver=vc.solver_s)
    for o in vc.obls:
        if deadline and time.time() > deadline:
            if any(x[1] != "proved" for x in out): break
            return dict(res, status="timeout", why="time", obligations=out, solver=vc.solver_s)
        if sum(x[1] != "proved" for x in out) >= 8: break            # enough
        st, model, t = prove(o.pc, o.goal)
        vc.solver_s += t
        out.append((o.name, st, str(model)[:1500] if model is not None else None, o.line))
    return dict(res, status="ok" if all(x[1] == "proved" for x in out) and ends[0] and out else "fail" if out else "empty", obligations=out, used=sorted(vc.used), inlined=sorted(vc.inlined), notes=sorted(vc.notes), solver=round(vc.solver_s, 2), paths=ends[0])
