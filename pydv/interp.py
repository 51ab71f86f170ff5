"""Symbolic interpreter over the real Python source: runs a function body over symbolic heaps, merges paths, cuts loops with
inferred-and-checked invariants, inlines repo functions or uses their contracts, and collects proof obligations."""
import ast, z3
from .heap import *
from .src import Cls, Fn, Repo

FALSE, TRUE = z3.BoolVal(False), z3.BoolVal(True)
IMMUT = (Const, IntV, BoolV, Sca, StrSym, Tgt, Ag, Lst, Obj, ClsV, ModV, Fun, Any_, Rng)


def gens0(e): return e
def is_num_const(v): return isinstance(v, Const) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool)
def intlike(v): return isinstance(v, IntV) or (isinstance(v, Const) and isinstance(v.v, int) and not isinstance(v.v, bool))
def iterm(v): return v.t if isinstance(v, IntV) else z3.IntVal(v.v)
def numeric(v): return isinstance(v, (IntV, BoolV, Sca)) or (isinstance(v, Const) and isinstance(v.v, (int, float, complex)))


class LoopInfo:
    def __init__(self): self.shapes, self.heaps, self.attrs, self.final, self.name, self.annotated, self.dropped, self.mut = {}, set(), set(), None, None, False, set(), set()


class Interp:
    MAXDEPTH = 14

    def __init__(self, repo, cls, mode, prover, annot=None):
        self.repo, self.cls, self.mode, self.prover = repo, cls, mode, prover
        self.annot = annot or {}
        self.tvs, self.loops, self.attr_tv = {}, {}, {}
        self.obls, self.dry, self.stack, self.ctx = [], 0, (), []
        self.mutlocs, self.mutnames = set(), set()
        self.depth, self.attr_used, self.notes, self.covered = 0, set(), set(), set()
        self.loopctx = []
        self.where = ""

    # ------------------------------------------------------------ types, encoding
    def tv(self, node, extra=""):
        k = (self.stack, id(node), extra)
        if k not in self.tvs: self.tvs[k] = TV()
        return self.tvs[k]

    def mat(self, st, v):
        """-> id term of an array value (allocates fresh objects)"""
        if isinstance(v, Opq):
            if v.t is None:
                v.t = st.new("a")
                c = v.content if v.content is not None else fint("c")
                st.con = Store(st.con, v.t, c)
                if v.feas: st.assume(Feas(c))
            return v.t
        raise Unsupported(f"array expected, got {v}")

    def bind(self, st, v):
        """A value about to be bound to a name or stored: give fresh objects their identity."""
        if isinstance(v, Opq) and v.t is None: self.mat(st, v)
        elif isinstance(v, Tup):
            for x in v.items: self.bind(st, x)
        elif isinstance(v, Seq): return self.listof(st, v)
        return v

    def kind_of(self, v):
        if numeric(v) or isinstance(v, StrSym) or (isinstance(v, Const) and isinstance(v.v, str)): return TV("sca", temp=True)
        if isinstance(v, Opq): return TV("opq", temp=True)
        if isinstance(v, Tgt): return TV("tgt", temp=True)
        if isinstance(v, Ag): return TV("agent", temp=True)
        if isinstance(v, Lst): return TV("list", [v.tv], temp=True)
        if isinstance(v, Tup): return TV("tup", [self.kind_of(x) for x in v.items], temp=True)
        if isinstance(v, Const) and v.v is None:
            t = TV(temp=True); t.opt = True; return t
        if isinstance(v, Opt):
            t = self.kind_of(v.v).find(); t.opt = True; return t
        return TV("any", temp=True)

    def encode(self, st, v, tv):
        """store a value in a heap cell of element type tv -> Int term"""
        unify(tv, self.kind_of(v))
        k = tv.find().kind
        if isinstance(v, Const) and v.v is None: return z3.IntVal(-1)
        if isinstance(v, Opt): return z3.If(v.isnone, z3.IntVal(-1), self.encode(st, v.v, tv))
        if k == "any":
            self.escape(st, v)
            return z3.IntVal(0)
        if k == "sca": return z3.IntVal(0)
        if k == "opq":
            if not isinstance(v, Opq): return z3.IntVal(0)
            return self.mat(st, v)
        if k == "tup":
            b = st.new("t")
            for n, x in enumerate(v.items):
                a = tv.find().args[n]
                st.assume(z3.Function(f"tup{n}", I, I)(b) == self.encode(st, x, a))
            return b
        return v.t

    def decode(self, st, t, tv, dim1=False):
        tv = tv.find()
        if tv.kind is None: raise Dead("nothing was ever stored there")
        v = self._decode(st, t, tv, dim1)
        if tv.opt: return Opt(t == -1, v)
        return v

    def _decode(self, st, t, tv, dim1):
        k = tv.kind
        if k == "sca": return Sca()
        if k == "opq": return Opq(t, dim1=dim1)
        if k == "tgt": return Tgt(t)
        if k == "agent": return Ag(t)
        if k == "list": return Lst(t, tv.args[0])
        if k == "tup": return Tup([self.decode(st, z3.Function(f"tup{n}", I, I)(t), a) for n, a in enumerate(tv.args)], islist=True)
        return Any_("element of a mixed container")

    def escape(self, st, v):
        """a tracked mutable object goes where it is no longer tracked"""
        if isinstance(v, (Ag, Lst)) or (isinstance(v, Tup) and any(isinstance(x, (Ag, Lst)) for x in v.items)):
            if not self.dry: raise Unsupported(f"{v} is stored in a container of mixed contents")

    # ------------------------------------------------------------ merging
    def merge(self, states):
        states = [s for s in states if s is not None]
        if not states: return None
        if len(states) == 1: return states[0]
        anc = ancestor([s.pc for s in states])
        n = len(states[0].frames)
        assert all(len(s.frames) == n for s in states)
        bs = [fbool("path") for _ in states]
        # values first (materialization extends the states' own path conditions)
        extra = []
        def j(vals): return self.join(states, vals, bs, extra)
        frames, objs = [], {}
        for i in range(n):
            f = {}
            for k in {k: None for s in states for k in s.frames[i]}:
                vs = [s.frames[i].get(k, Undef()) for s in states]
                if k == "_" and len({repr(type(v)) + (str(v.tv.find().kind) if isinstance(v, Lst) else "") for v in vs}) > 1: f[k] = Any_("a discarded value"); continue
                f[k] = j(vs)
            frames.append(f)
        for o in {k: None for s in states for k in s.objs}:
            d = {}
            for k in {k: None for s in states for k in s.objs.get(o, {})}:
                d[k] = j([s.objs.get(o, {}).get(k, Undef()) for s in states])
            objs[o] = d
        m = State.__new__(State)
        m.frames, m.objs, m.attrs = frames, objs, {}
        def arr(vals, sort, name):
            if all(v is vals[0] for v in vals) or all(v.eq(vals[0]) for v in vals): return vals[0]
            x = fresh(sort, name)
            for b, v in zip(bs, vals): extra.append(z3.Implies(b, x == v))
            return x
        for h in HEAP: setattr(m, h, arr([getattr(s, h) for s in states], SORTS[h], h))
        for a in {k: None for s in states for k in s.attrs}:
            vals = [s.attrs.get(a) for s in states]
            d = next(v for v in vals if v is not None)
            m.attrs[a] = arr([d if v is None else v for v in vals], AI, "at_" + a)
        m.alloc = arr([s.alloc for s in states], I, "alloc")
        m.pc = anc
        for b, s in zip(bs, states):
            suf = s.pc.list(anc)
            for f in suf: m.assume(z3.Implies(b, f))
        m.assume(z3.Or(bs))
        for e in extra: m.assume(e)
        return m

    def join(self, sts, vals, bs, extra):
        v0 = vals[0]
        if all(v is v0 for v in vals): return v0
        live = [(s, v, b) for s, v, b in zip(sts, vals, bs) if not isinstance(v, Undef)]
        if not live: return v0
        if len(live) < len(vals):
            if len(live) == 1: return live[0][1]
            return self.join([x[0] for x in live], [x[1] for x in live], [x[2] for x in live], extra)
        if all(isinstance(v, Const) for v in vals) and all(type(v.v) is type(v0.v) and v.v == v0.v for v in vals): return v0
        isn = lambda v: isinstance(v, Const) and v.v is None
        if any(isn(v) or isinstance(v, Opt) for v in vals):
            n = fbool("isnone"); sub = []
            for s, v, b in zip(sts, vals, bs):
                if isn(v): extra.append(z3.Implies(b, n))
                elif isinstance(v, Opt): extra.append(z3.Implies(b, n == v.isnone)); sub.append((s, v.v, b))
                else: extra.append(z3.Implies(b, z3.Not(n))); sub.append((s, v, b))
            if not sub: return NONE
            r = sub[0][1] if len(sub) == 1 else self.join([x[0] for x in sub], [x[1] for x in sub], [x[2] for x in sub], extra)
            return Opt(n, r)
        if all(numeric(v) for v in vals):
            if all(intlike(v) for v in vals):
                t = fint("i")
                for v, b in zip(vals, bs): extra.append(z3.Implies(b, t == iterm(v)))
                return IntV(t)
            if all(isinstance(v, BoolV) or (isinstance(v, Const) and isinstance(v.v, bool)) for v in vals):
                t = fbool()
                for v, b in zip(vals, bs): extra.append(z3.Implies(b, t == (v.t if isinstance(v, BoolV) else z3.BoolVal(v.v))))
                return BoolV(t)
            return Sca()
        if all(isinstance(v, Opq) or numeric(v) for v in vals):
            t = fint("a"); base = []
            for s, v, b in zip(sts, vals, bs):
                if not isinstance(v, Opq): v = Opq()
                extra.append(z3.Implies(b, t == self.mat(s, v)))
                base += [x for x in v.base if not any(x is y for y in base)]
            return Opq(t, dim1=all(isinstance(v, Opq) and v.dim1 for v in vals), base=base)
        def same(c, mk):
            if all(isinstance(v, c) for v in vals):
                if all(v.t.eq(v0.t) for v in vals): return v0
                t = fint()
                for v, b in zip(vals, bs): extra.append(z3.Implies(b, t == v.t))
                return mk(t)
        r = same(Tgt, Tgt) or same(Ag, Ag)
        if r is not None: return r
        if all(isinstance(v, Lst) for v in vals):
            for v in vals[1:]: unify(v0.tv, v.tv)
            return same(Lst, lambda t: Lst(t, v0.tv))
        if all(isinstance(v, Tup) for v in vals) and len({(len(v.items), v.islist) for v in vals}) == 1:
            return Tup([self.join(sts, [v.items[i] for v in vals], bs, extra) for i in range(len(v0.items))], v0.islist)
        if all(isinstance(v, (Lst, Tup)) for v in vals):       # a list literal of mixed values in one branch: as a list
            return Any_("list of mixed values")
        if all(isinstance(v, Rng) for v in vals):
            return Rng(self.join(sts, [v.lo for v in vals], bs, extra), self.join(sts, [v.hi for v in vals], bs, extra), v0.step)
        if all(isinstance(v, Obj) for v in vals) and len({v.name for v in vals}) == 1: return v0
        if all(isinstance(v, ClsV) for v in vals) and len({v.c for v in vals}) == 1: return v0
        if all(isinstance(v, ModV) for v in vals) and len({v.name for v in vals}) == 1: return v0
        if all(isinstance(v, Fun) for v in vals) and len({(v.fn, v.lam, v.name) for v in vals}) == 1: return v0
        if all(isinstance(v, StrSym) for v in vals): return v0
        if any(isinstance(v, (Ag, Lst)) for v in vals) and not self.dry: self.notes.add(f"mixed values {[type(v).__name__ for v in vals]}")
        return Any_("different kinds of values")

    # ------------------------------------------------------------ shapes (for loop heads)
    def shape(self, v):
        if isinstance(v, Const):
            if v.v is None: return ("none",)
            return ("const", type(v.v).__name__, v.v)
        if isinstance(v, IntV): return ("int",)
        if isinstance(v, BoolV): return ("bool",)
        if isinstance(v, Sca): return ("sca",)
        if isinstance(v, StrSym): return ("keep", v)
        if isinstance(v, Opq): return ("opq", v.dim1, bool(v.base))
        if isinstance(v, Tgt): return ("tgt",)
        if isinstance(v, Ag): return ("ag",)
        if isinstance(v, Lst): return ("lst", v.tv.find())
        if isinstance(v, Tup): return ("tup", v.islist) + tuple(self.shape(x) for x in v.items)
        if isinstance(v, Opt): return ("opt", self.shape(v.v))
        if isinstance(v, Undef): return ("undef",)
        if isinstance(v, Rng): return ("rng", v.step)
        if isinstance(v, Any_): return ("any",)
        if isinstance(v, Seq): return ("any",)
        return ("keep", v)

    def jshape(self, a, b):
        if a == b: return a
        if a[0] == "undef": return b
        if b[0] == "undef": return a
        num = lambda s: s[0] in ("int", "bool", "sca") or (s[0] == "const" and s[1] in ("int", "float", "bool"))
        isint = lambda s: s[0] == "int" or (s[0] == "const" and s[1] == "int")
        isb = lambda s: s[0] == "bool" or (s[0] == "const" and s[1] == "bool")
        if a[0] == "none" or b[0] == "none" or a[0] == "opt" or b[0] == "opt":
            x = a[1] if a[0] == "opt" else (None if a[0] == "none" else a)
            y = b[1] if b[0] == "opt" else (None if b[0] == "none" else b)
            return ("opt", x if y is None else (y if x is None else self.jshape(x, y)))
        if num(a) and num(b): return ("int",) if isint(a) and isint(b) else ("bool",) if isb(a) and isb(b) else ("sca",)
        if (num(a) or a[0] == "opq") and (num(b) or b[0] == "opq"):
            qa, qb = (a if a[0] == "opq" else ("opq", False, False)), (b if b[0] == "opq" else ("opq", False, False))
            return ("opq", qa[1] and qb[1], qa[2] or qb[2])
        if a[0] == "lst" and b[0] == "lst": return ("lst", unify(a[1], b[1]))
        if a[0] == "tup" and b[0] == "tup" and len(a) == len(b) and a[1] == b[1]:
            return ("tup", a[1]) + tuple(self.jshape(x, y) for x, y in zip(a[2:], b[2:]))
        if a[0] == "keep" and b[0] == "keep":
            x, y = a[1], b[1]
            if type(x) is type(y) and (getattr(x, "name", 0), getattr(x, "fn", 0), getattr(x, "lam", 0), getattr(x, "c", 0)) == (getattr(y, "name", 0), getattr(y, "fn", 0), getattr(y, "lam", 0), getattr(y, "c", 0)): return a
        if a[0] == "rng" and b[0] == "rng": return a
        return ("any",)

    def inst(self, s, st):
        """an arbitrary value of a shape, in a state whose alloc bound is already set"""
        k = s[0]
        if k == "const": return Const(s[2])
        if k == "none": return NONE
        if k == "int": return IntV(fint("i"))
        if k == "bool": return BoolV(fbool())
        if k == "sca": return Sca()
        if k == "keep": return s[1]
        def ref(n):
            t = fint(n); st.assume(t < st.alloc); return t
        if k == "opq": return Opq(ref("a"), dim1=s[1], base=(ref("base"),) if s[2] else ())
        if k == "tgt": return Tgt(fint("tg"))
        if k == "ag": return Ag(ref("ag"))
        if k == "lst": return Lst(ref("ls"), s[1])
        if k == "tup": return Tup([self.inst(x, st) for x in s[2:]], s[1])
        if k == "opt": return Opt(fbool("isnone"), self.inst(s[1], st))
        if k == "undef": return Undef()
        if k == "rng": return Rng(IntV(fint("i")), IntV(fint("i")), s[1])
        return Any_("after a loop")

    # ------------------------------------------------------------ statements
    # exec returns dict kind -> list of states (return: list of (state, value))
    def block(self, body, st):
        out = dict(next=[], brk=[], cont=[], ret=[])
        cur = st
        for n, s in enumerate(body):
            try: o = self.stmt(s, cur)
            except Dead: return out
            out["brk"] += o.get("brk", []); out["cont"] += o.get("cont", []); out["ret"] += o.get("ret", [])
            nx = o.get("next", [])
            if not nx: return out
            cur = self.merge(nx)
        out["next"].append(cur)
        return out

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None: raise Unsupported(f"statement {type(s).__name__}")
        try: return m(s, st) or dict(next=[st])
        except Unsupported as e:
            if not hasattr(e, "line"):
                e.line = s.lineno
                e.args = (f"{e.args[0]} ({'/'.join(n for _, n in self.stacknames)} line {s.lineno})",)
            raise

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value, st)

    def s_Pass(self, s, st): pass
    def s_Import(self, s, st): pass
    s_ImportFrom = s_Import

    def s_Assert(self, s, st):
        c = self.truth(st, self.ev(s.test, st))
        st.assume(c)

    def s_Raise(self, s, st): return dict(next=[])

    def s_Return(self, s, st):
        v = self.bind(st, self.ev(s.value, st)) if s.value is not None else NONE
        return dict(ret=[(st, v)])

    def s_Break(self, s, st): return dict(brk=[st])
    def s_Continue(self, s, st): return dict(cont=[st])

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name): st.frames[-1].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                if isinstance(b, Lst): self.ev(t.slice, st); self.draw_into(st, b, [b])
                else: raise Unsupported("del")
            else: raise Unsupported("del")

    def s_FunctionDef(self, s, st):
        st.frames[-1][s.name] = Fun(fn=Fn(s, self.ctx[-1][0], None), frame=len(st.frames) - 1, cls=self.ctx[-1][1])

    def s_Assign(self, s, st):
        v = self.bind(st, self.ev(s.value, st))
        for t in s.targets: self.assign(t, v, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None: self.assign(s.target, self.bind(st, self.ev(s.value, st)), st)

    def s_AugAssign(self, s, st):
        t = s.target
        cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t) if isinstance(t, ast.Name) else t, st)
        rhs = self.ev(s.value, st)
        cur = self.some(st, cur)
        if isinstance(cur, Opq):       # in place
            self.mutate(st, cur)
            if isinstance(t, ast.Name): st.frames[-1][t.id] = cur
            return
        if isinstance(cur, Lst) and isinstance(s.op, ast.Add):
            self.extend(st, cur, rhs); return
        v = self.bind(st, self.binop(s.op, cur, rhs, st, s))
        self.assign(t, v, st)

    def s_If(self, s, st):
        c = self.truth(st, self.ev(s.test, st))
        return self.branch(st, c, lambda x: self.block(s.body, x), lambda x: self.block(s.orelse, x))

    def branch(self, st, c, f, g):
        c = z3.simplify(c)
        if z3.is_true(c): return f(st)
        if z3.is_false(c): return g(st)
        a, b = st.clone(), st
        a.assume(c); b.assume(z3.Not(c))
        o1, o2 = f(a), g(b)
        return {k: o1.get(k, []) + o2.get(k, []) for k in ("next", "brk", "cont", "ret")}

    def s_With(self, s, st):
        for i in s.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None: self.assign(i.optional_vars, v, st)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        # the handlers may start after any statement of the body (statements are taken as atomic)
        starts, cur = [st.clone()], st
        out = dict(next=[], brk=[], cont=[], ret=[])
        alive = True
        for x in s.body:
            try: o = self.stmt(x, cur)
            except Dead: alive = False; break
            for k in ("brk", "cont", "ret"): out[k] += o.get(k, [])
            nx = o.get("next", [])
            if not nx: alive = False; break
            cur = self.merge(nx); starts.append(cur.clone())
        if alive:
            o = self.block(s.orelse, cur)
            for k in out: out[k] += o[k]
        for h in s.handlers:
            hs = self.merge([x.clone() for x in starts])
            if h.name: hs.frames[-1][h.name] = Any_("exception")
            o = self.block(h.body, hs)
            for k in out: out[k] += o[k]
        if s.finalbody:
            if out["brk"] or out["cont"] or out["ret"]: raise Unsupported("finally with jumps")
            m = self.merge(out["next"])
            if m is None: return out
            return self.block(s.finalbody, m)
        return out

    def some(self, st, v):
        """a value that is used in a way None does not allow"""
        if not isinstance(v, Opt): return v
        st.assume(z3.Not(v.isnone))
        return v.v

    def s_Global(self, s, st): raise Unsupported("global")

    # ------------------------------------------------------------ loops
    def s_While(self, s, st):
        def setup(h): h.assume(self.truth(h, self.ev(s.test, h)))
        def done(h): h.assume(z3.Not(self.truth(h, self.ev(s.test, h))))
        return self.loop(s, st, setup, done)

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        it = self.some(st, it)
        if isinstance(it, Tup):       # a literal: unrolled
            return self.unrolled(s, st, it.items)
        if isinstance(it, Const) and isinstance(it.v, (str, tuple)): return self.unrolled(s, st, [Const(x) for x in it.v])
        it = self.bind(st, it) if isinstance(it, Opq) else it
        setup, done = self.for_hooks(s.target, it)
        return self.loop(s, st, setup, done, it=it)

    # the position of the innermost iteration: a ghost counter $k<depth> of the loop
    cursor = None
    def pos(self, st):
        i = self.cursor if self.cursor is not None else fint("i")
        st.assume(i >= 0)
        return i

    def counter(self, st): return st.objs["$loops"][f"$k{len(self.entries) - 1}"].t

    def for_hooks(self, target, it):
        def setup(h):
            k = self.counter(h)
            self.headbound(h, it, k)
            self.cursor = k
            try: v = self.element(h, it)
            finally: self.cursor = None
            self.assign(target, self.bind(h, v), h)
        def done(h):
            k = self.counter(h)
            self.headbound(h, it, k)
            ex = self.exhausted(h, it, k)
            if ex is not None: h.assume(ex)
        return setup, done

    def headbound(self, st, it, k):
        if isinstance(it, Rng) and it.step == 1 and intlike(it.lo) and intlike(it.hi):
            n = iterm(it.hi) - iterm(it.lo)
            st.assume(k <= z3.If(n > 0, n, 0))

    def exhausted(self, st, it, k):
        if isinstance(it, Rng) and it.step == 1 and intlike(it.lo) and intlike(it.hi): return iterm(it.lo) + k >= iterm(it.hi)
        if isinstance(it, Lst) and not it.tv.find().isdict: return k >= st.llen[it.t]
        if isinstance(it, Seq) and it.over:
            r = [self.exhausted(st, x, k) for x in it.over]
            if all(x is not None for x in r): return z3.Or(r)
        return None

    def unrolled(self, s, st, items):
        out = dict(next=[], brk=[], cont=[], ret=[])
        cur, brk = st, []
        for x in items:
            self.assign(s.target, x, cur)
            o = self.block(s.body, cur)
            out["ret"] += o["ret"]; brk += o["brk"]
            nx = o["next"] + o["cont"]
            if not nx: cur = None; break
            cur = self.merge(nx)
        if cur is not None:
            o = self.block(s.orelse, cur)
            for k in out: out[k] += o[k]
        out["next"] += brk
        return out

    def element(self, st, it):
        """an arbitrary element of an iterable (with its index constraints)"""
        if isinstance(it, Seq): return it.get(st)
        if isinstance(it, Rng):
            i = fint("i")
            lo, hi = it.lo, it.hi
            if intlike(lo) and it.step == 1 and self.cursor is not None: st.assume(i == iterm(lo) + self.cursor)
            if intlike(lo) and it.step == 1: st.assume(i >= iterm(lo))
            if intlike(hi) and it.step == 1: st.assume(i < iterm(hi))
            if it.step == -1:
                if intlike(lo): st.assume(i <= iterm(lo))
                if intlike(hi): st.assume(i > iterm(hi))
            return IntV(i)
        if isinstance(it, Lst):
            if it.tv.find().isdict: return Sca()
            i = self.pos(st)
            st.assume(i < st.llen[it.t])
            return self.decode(st, st.lel[it.t][i], it.tv)
        if isinstance(it, Opq):
            t = self.mat(st, it)
            return Sca() if it.dim1 else Opq(self.viewid(st), base=(t,) + it.base)
        if isinstance(it, Tup):
            raise Unsupported("iteration over a literal here")
        if isinstance(it, (Any_, Sca)): return Any_("element of something untracked")
        raise Unsupported(f"iteration over {it}")

    def viewid(self, st):
        t = st.new("v")
        st.con = Store(st.con, t, fint("c"))
        return t

    def locs(self, st):
        for i, f in enumerate(st.frames):
            for k, v in f.items(): yield ("f", i, k), v
        for o, d in st.objs.items():
            for k, v in d.items(): yield ("o", o, k), v

    @staticmethod
    def getloc(st, loc): return st.frames[loc[1]].get(loc[2], Undef()) if loc[0] == "f" else st.objs.get(loc[1], {}).get(loc[2], Undef())
    @staticmethod
    def setloc(st, loc, v):
        if loc[0] == "f": st.frames[loc[1]][loc[2]] = v
        else: st.objs.setdefault(loc[1], {})[loc[2]] = v

    def same(self, a, b):
        if a is b: return True
        if type(a) is not type(b): return False
        if isinstance(a, Const): return type(a.v) is type(b.v) and a.v == b.v
        if isinstance(a, (IntV, BoolV, Tgt, Ag, Lst)): return a.t.eq(b.t)
        if isinstance(a, Opq): return a.t is not None and b.t is not None and a.t.eq(b.t) and a.dim1 == b.dim1 and a.base == b.base
        if isinstance(a, Tup): return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Opt): return a.isnone.eq(b.isnone) and self.same(a.v, b.v)
        if isinstance(a, (Sca, Any_, Undef)): return True
        return self.shape(a) == self.shape(b)

    def changes(self, head, end, info):
        """extend the loop's modified set with what the body changed; True if it grew"""
        grew = False
        for loc in {l: None for s in (head, end) for l, _ in self.locs(s)}:
            if loc[2] == "$ret" or loc[1] == "$loops": continue
            a, b = self.getloc(head, loc), self.getloc(end, loc)
            if isinstance(b, Undef) and not isinstance(a, Undef): continue
            if self.same(a, b): continue
            sa, sb = self.shape(a), self.shape(b)
            old = info.shapes.get(loc)
            new = self.jshape(sa, sb)
            if new[0] == "const": new = ("int",) if new[1] == "int" and sa != sb else new
            if old is not None: new = self.jshape(old, new)
            if old is None or old != new:
                info.shapes[loc] = new; grew = True
                if self.debug: print("grow", loc, old, new, "|", a, b)
        for h in HEAP:
            if not getattr(head, h).eq(getattr(end, h)) and h not in info.heaps: info.heaps.add(h); grew = True
        for a in {k: None for s in (head, end) for k in s.attrs}:
            if (a not in head.attrs or not head.attrs[a].eq(end.attrs.get(a, head.attrs.get(a)))) and a not in info.attrs: info.attrs.add(a); grew = True
        if not head.alloc.eq(end.alloc) and "alloc" not in info.heaps: info.heaps.add("alloc"); grew = True
        return grew

    def havoc(self, entry, info):
        h = entry.clone()
        if "alloc" in info.heaps or info.heaps or info.attrs:
            h.alloc = fint("alloc"); h.assume(h.alloc >= entry.alloc)
        hv = [x for x in HEAP if x in info.heaps]
        h.havoc_heap(hv, info.attrs); h.wf_heap(hv, info.attrs)
        self.havoc_locs(entry, info, h)
        if "llen" in hv or "lel" in hv:      # lists with elements of different (inferred) types are different lists
            by = {}
            for _, v in self.locs(h):
                if isinstance(v, Opt): v = v.v
                if isinstance(v, Lst) and v.tv.find().kind in ("sca", "agent", "opq", "list"): by.setdefault(v.tv.find().kind, {})[v.t.get_id()] = v.t
            ks = list(by)
            for i, a in enumerate(ks):
                for b in ks[i + 1:]:
                    for x in by[a].values():
                        for y in by[b].values(): h.assume(x != y)
        return h

    def havoc_locs(self, entry, info, h):
        for loc, sh in info.shapes.items():
            ev = self.getloc(entry, loc)
            s = self.jshape(self.shape(ev), sh)
            if s != info.shapes[loc]: info.shapes[loc] = s
            self.setloc(h, loc, self.inst(s, h))

    def lkey(self, node): return (self.stack, id(node))

    def lname(self, node):
        """a name for the loop that survives edits elsewhere: function, ordinal of the loop in it, call path"""
        return "/".join([x[1] for x in self.stacknames] + [f"loop{self.loopno(node)}"])

    def loopno(self, node):
        f = self.curfn
        k = 0
        for n in ast.walk(f):
            if isinstance(n, (ast.For, ast.While, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.comprehension)):
                if n is node: return k
                k += 1
        return -1

    stacknames, curfn = (), None

    loopstart, loopit = None, ()
    def loop(self, node, st, setup, done, body=None, it=None):
        if isinstance(it, Seq) and len(it.over) == 1: it = it.over[0]
        s0, self.loopstart, i0 = self.loopstart, None, self.loopit
        self.loopit = [x.t for x in (it.over if isinstance(it, Seq) else [it]) if isinstance(x, Lst) and not x.tv.find().isdict]
        if isinstance(it, Rng) and it.step == 1 and intlike(it.lo) and not (isinstance(it.lo, Const) and it.lo.v == 0): self.loopstart = iterm(it.lo)
        try: return self.loop1(node, st, setup, done, body)
        finally: self.loopstart, self.loopit = s0, i0

    def loop1(self, node, st, setup, done, body=None):
        saved = self.entries
        kn = f"$k{len(saved)}"
        st.objs.setdefault("$loops", {})[kn] = IntV(z3.IntVal(0))
        self.entries = saved + (st.norm(),)
        try: r = self.loop_(node, st, setup, done, body)
        finally: self.entries = saved
        for k, x in r.items():
            for y in x: (y[0] if k == "ret" else y).objs["$loops"].pop(kn, None)
        return r

    def loop_(self, node, st, setup, done, body=None):
        info = self.loops.setdefault(self.lkey(node), LoopInfo())
        entry = st.norm()
        mark = len(self.obls)
        tries = 0
        while True:
            tries += 1
            if tries > 60: raise Unsupported("loop invariant inference does not stabilise")
            ver = Ver.n
            head = self.havoc(entry, info)
            kn = f"$k{len(self.entries) - 1}"
            K = fint("iter"); head.assume(K >= 0); head.objs["$loops"][kn] = IntV(K)
            cands = []
            if not self.dry:
                cands = self.candidates(node, info, entry, head)
                for _, f in cands: head.assume(f)
            h0 = head.clone()
            out = dict(next=[], brk=[], cont=[], ret=[])
            outer, self.mutlocs = self.mutlocs, set()
            try:
                setup(head)
                self.loopctx.append(node)
                try: out = self.block(node.body, head) if body is None else body(head)
                finally: self.loopctx.pop()
            except Dead: pass
            grow = self.mutlocs - info.mut
            info.mut |= self.mutlocs; self.mutlocs = outer | info.mut
            if grow and not self.dry: del self.obls[mark:]; continue
            ends = out["next"] + out["cont"]
            E = self.merge([s for s in ends]) if ends else None
            if E is not None:
                E.objs["$loops"][kn] = IntV(K + 1)
                self.loop_end(node, E)
                if self.changes(h0, E, info) or Ver.n != ver:
                    del self.obls[mark:]; continue
                E.norm()
                if not self.dry:
                    bad = self.failing(E, node, info, entry, [n for n, _ in cands])
                    if bad:
                        fr = [b for b in bad if self.has_fallback(b)]
                        info.dropped |= set(fr or bad); del self.obls[mark:]; continue
            elif Ver.n != ver:
                del self.obls[mark:]; continue
            for b in out["brk"]: self.loop_end(node, b)
            break
        if not self.dry: info.final, info.name = [n for n, _ in cands], self.lname(node)
        # exit: the loop condition is false at an (arbitrary) head
        ex = h0
        alive = True
        if done is not None:
            try: done(ex)
            except Dead: alive = False
        res = dict(next=[], brk=[], cont=[], ret=out["ret"])
        if alive:
            if getattr(node, "orelse", None):
                o = self.block(node.orelse, ex)
                for k in res: res[k] = res[k] + o[k]
            else: res["next"].append(ex)
        res["next"] += out["brk"]
        return res

    def final_annot(self):
        res = {}
        for i in self.loops.values():
            if isinstance(i, LoopInfo) and i.final is not None:
                r = res.setdefault(i.name, (set(), set()))
                r[0].update(i.final); r[1].update(i.dropped)
        return {k: [sorted(f), sorted(d - f)] for k, (f, d) in res.items()}

    @staticmethod
    def has_fallback(b): return b.startswith(("conF", "solF", "tgtF", "lstF", "atF", "new:", "ANew:", "AaNew:", "AlNew:"))

    debug = False
    entries = ()
    def loop_end(self, node, st): pass        # hook

    # candidate invariants --------------------------------------------------
    FRAME = ("conF", "solF", "tgtF", "lstF", "atF")
    def chain(self, D, name):
        """a frame fact relative to this loop's entry, or when that one failed, to the entry of an enclosing loop"""
        res, k = [name], len(self.entries) - 1
        while res[-1] in D and k > 0:
            k -= 1
            res.append(f"{name}@{k}")
        return res

    def cand_names(self, node, info, entry, head):
        res, D, H = [], info.dropped, info.heaps
        moved = bool(H - {"alloc"} or info.attrs)
        nf = len(entry.frames)
        keep = lambda kind: sorted(f"{l[0]}.{l[1]}.{l[2]}" for k, l in info.mut if k == kind and (l[0] != 'f' or l[1] < nf) and l not in info.shapes and not isinstance(self.getloc(entry, l), Undef))
        if self.loopit: res.append("itB")
        if ("o", "$g", "ev") in info.shapes or ("o", "self", "nfe_counter") in info.shapes: res.append("nfe")
        res += [f"set:{l[2]}" for l in info.shapes if l[1] == "$init"]
        if "con" in H:
            if keep("con"): res += ["conFx:" + ",".join(keep("con"))]
            res += self.chain(D, "conF")
        if "sol" in H: res += self.chain(D, "solF")
        if "tgt" in H: res += self.chain(D, "tgtF")
        if "conF" in D or "solF" in D:
            res += ["FP", "VP"]
        elif "tgtF" in D: res += ["VP"]
        if "lel" in H or "llen" in H:
            if keep("lst"): res += ["lstFx:" + ",".join(keep("lst"))]
            res += self.chain(D, "lstF")
        for a in sorted(info.attrs): res += self.chain(D, f"atF:{a}")
        for loc, v in self.locs(head):
            if loc[2].startswith("$") and not loc[2].startswith("$comp"): continue
            ch = loc in info.shapes
            if not (ch or moved): continue
            if isinstance(v, Opt): v = v.v
            n = f"{loc[0]}.{loc[1]}.{loc[2]}"
            self.names_for(n, v, ch, res, info)
        return res

    def names_for(self, n, v, ch, res, info):
        # what the general facts (VP, FP, conF, lstF) already preserve needs no candidate of its own
        D, H = info.dropped, info.heaps
        lst = ch or "lstF" in D
        vp, fp, con = lst or "VP" in D, lst or "FP" in D, lst or "conF" in D
        def new(p): res.extend(self.chain(D, f"{p}:{n}"))
        if isinstance(v, Ag):
            if ch or "VP" in D: res.append(f"V:{n}")
            if ch or "FP" in D: res.append(f"F:{n}")
            if ch: new("new")
        elif isinstance(v, Opq):
            if ch or "conF" in D: res.append(f"Fa:{n}")
            if ("sol" in H or "con" in H) and n.split(".")[2] in self.mutnames: res.append(f"sep:{n}")
            if ch: new("new")
        elif isinstance(v, Lst):
            k = v.tv.find().kind
            tail = n.split(".")[2]
            if "llen" in H and not ch and any(l[2] == tail for q, l in info.mut if q == "lst"):
                res.append(f"len:{n}"); res.append(f"lenF:{n}")
            if "llen" in H and k == "agent" and lst: res.append(f"lps:{n}")
            if k == "agent":
                if vp: res.append(f"AV:{n}")
                if fp: res.append(f"AF:{n}")
                if "lel" in H and not ch and any(l[2] == tail for q, l in info.mut if q == "lst") and not n.startswith("f.1."): res.append(f"sF:{n}")
                if ("tgt" in H or "sol" in H or "lel" in H) and (f"AV:{n}" in D or not vp) and not n.startswith("f.1."): res += [f"pV:{n}", f"pW:{n}"]
                if lst: new("ANew")
            elif k == "opq":
                if con: res.append(f"AFa:{n}")
                if lst: new("AaNew")
                if ("sol" in H or "con" in H) and n.split(".")[2] in self.mutnames: res.append(f"Asep:{n}")
            elif k == "list":
                k2 = v.tv.find().args[0].find().kind
                if k2 == "agent":
                    if vp: res.append(f"AAV:{n}")
                    if fp: res.append(f"AAF:{n}")
                elif k2 == "opq":
                    if con: res.append(f"AAFa:{n}")
                if lst: new("AlNew")
            elif k == "tup":
                for i, a in enumerate(v.tv.find().args):
                    if a.find().kind == "agent": res += ([f"TV{i}:{n}"] if vp else []) + ([f"TF{i}:{n}"] if fp else [])
                    if a.find().kind == "opq" and con: res += [f"TFa{i}:{n}"]
            if ch: new("new")
        elif isinstance(v, Tup):
            for i, x in enumerate(v.items): self.names_for(f"{n}.{i}", x, ch, res, info)

    def cand(self, name, st, entry, head=None):
        """the formula of a candidate in a state (None: not applicable)"""
        if "@" in name:
            name, k = name.rsplit("@", 1)
            if int(k) >= len(self.entries): return None
            entry = self.entries[int(k)]
        x = z3.Int("x")
        if name == "VP": return z3.ForAll([x], z3.Implies(z3.And(x < entry.alloc, valid(entry, x)), valid(st, x)), patterns=[st.sol[x], st.tgt[x]] if not st.tgt.eq(entry.tgt) else [st.sol[x]])
        if name == "FP": return z3.ForAll([x], z3.Implies(z3.And(x < entry.alloc, feasible(entry, x)), feasible(st, x)), patterns=[st.sol[x]])
        if name == "conF": return z3.ForAll([x], z3.Implies(x < entry.alloc, st.con[x] == entry.con[x]), patterns=[st.con[x]])
        if name == "solF": return z3.ForAll([x], z3.Implies(x < entry.alloc, st.sol[x] == entry.sol[x]), patterns=[st.sol[x]])
        if name == "tgtF": return z3.ForAll([x], z3.Implies(x < entry.alloc, st.tgt[x] == entry.tgt[x]), patterns=[st.tgt[x]])
        if name == "lstF": return z3.ForAll([x], z3.Implies(x < entry.alloc, z3.And(st.lel[x] == entry.lel[x], st.llen[x] == entry.llen[x])), patterns=[st.lel[x], st.llen[x]])
        if name.startswith(("lstFx:", "conFx:")):
            t = []
            for q in name[6:].split(","):
                a, b, c = q.split(".", 2)
                v = self.getloc(entry, (a, int(b) if a == "f" else b, c))
                if isinstance(v, Opt): v = v.v
                if isinstance(v, Undef) or getattr(v, "t", None) is None: continue
                t.append(v.t)
            if name.startswith("lstFx:"): return z3.ForAll([x], z3.Implies(z3.And(x < entry.alloc, *[x != y for y in t]), z3.And(st.lel[x] == entry.lel[x], st.llen[x] == entry.llen[x])), patterns=[st.lel[x], st.llen[x]])
            return z3.ForAll([x], z3.Implies(z3.And(x < entry.alloc, *[x != y for y in t]), st.con[x] == entry.con[x]), patterns=[st.con[x]])
        if name == "itB": return z3.And([self.counter(st) <= st.llen[t] for t in self.loopit])
        if name == "nfe": return self.counter_ok(st)
        p, n = name.split(":", 1)
        if p == "set":
            f = st.objs["$init"].get(n)
            return z3.BoolVal(f.v) if isinstance(f, Const) else f.t
        if p == "atF":
            a0, a1 = entry.attrs.get(n), st.attrs.get(n)
            if a0 is None: return TRUE
            return z3.ForAll([x], z3.Implies(x < entry.alloc, a1[x] == a0[x]), patterns=[a1[x]])
        parts = n.split(".")
        loc = (parts[0], int(parts[1]) if parts[0] == "f" else parts[1], parts[2])
        v = self.getloc(st, loc)
        guard = None
        if isinstance(v, Undef): return TRUE
        if isinstance(v, Opt): guard, v = v.isnone, v.v
        if isinstance(v, Const) and v.v is None: return TRUE
        for k in parts[3:]:
            if not isinstance(v, Tup): return None
            v = v.items[int(k)]
            if isinstance(v, Opt): guard, v = v.isnone, v.v
            if isinstance(v, Const) and v.v is None: return TRUE
        f = self.pred(p, st, v, entry)
        if f is None: return None
        return f if guard is None else z3.Or(guard, f)

    def pred(self, p, st, v, entry):
        if p in ("V", "F"):
            if not isinstance(v, Ag): return None
            return valid(st, v.t) if p == "V" else feasible(st, v.t)
        if p == "new": return v.t >= entry.alloc if isinstance(v, (Ag, Lst)) or (isinstance(v, Opq) and v.t is not None) else None
        if p == "sep":      # no agent's position is this array
            if not (isinstance(v, Opq) and v.t is not None): return None
            x = z3.Int("x")
            return z3.ForAll([x], st.sol[x] != v.t, patterns=[st.sol[x]])
        if p == "Asep":
            if not isinstance(v, Lst): return None
            x, i = z3.Int("x"), z3.Int("i"); e = st.lel[v.t][i]
            return z3.ForAll([x, i], z3.Implies(z3.And(0 <= i, i < st.llen[v.t]), st.sol[x] != e), patterns=[z3.MultiPattern(st.sol[x], e)])
        if p == "Fa": return Feas(st.con[v.t]) if isinstance(v, Opq) and v.t is not None else None
        if not isinstance(v, Lst): return None
        l = v.t
        if p in ("len", "lenF"): return st.llen[l] == entry.llen[l] + (self.counter(st) if p == "len" else 0)
        if p == "lps":
            n = st.objs["self"].get("pop_size")
            return st.llen[l] == iterm(n) if n is not None and intlike(n) else None
        if p == "sF":             # the entries that no iteration has come to yet
            k = self.counter(st); i = z3.Int("i"); e = st.lel[l][i]
            lo = self.loopstart if self.loopstart is not None else z3.IntVal(0)
            return z3.ForAll([i], z3.Implies(i >= lo + k, e == entry.lel[l][i]), patterns=[e])
        if p in ("pV", "pW"):     # the elements that the iterations so far have treated
            k = self.counter(st); i = z3.Int("i"); e = st.lel[l][i]
            lo = self.loopstart
            if p == "pW" and lo is None: return None
            lo = z3.IntVal(0) if lo is None else lo
            return z3.ForAll([i], z3.Implies(z3.And((lo if p == "pV" else 0) <= i, i < lo + k, i < st.llen[l]), valid(st, e)), patterns=[e])
        tf = lambda i: z3.Function(f"tup{i}", I, I)
        if p == "AV": return over(st, l, lambda e: valid(st, e))
        if p == "AF": return over(st, l, lambda e: feasible(st, e))
        if p == "ANew": return over(st, l, lambda e: z3.And(e >= entry.alloc, st.sol[e] >= entry.alloc))
        if p == "AFa": return over(st, l, lambda e: Feas(st.con[e]))
        if p in ("AaNew", "AlNew"): return over(st, l, lambda e: e >= entry.alloc)
        if p == "AAV": return over2(st, l, lambda e: valid(st, e))
        if p == "AAF": return over2(st, l, lambda e: feasible(st, e))
        if p == "AAFa": return over2(st, l, lambda e: Feas(st.con[e]))
        if p.startswith("TFa"): return over(st, l, lambda e: Feas(st.con[tf(p[3:])(e)]))
        if p.startswith("TV"): return over(st, l, lambda e: valid(st, tf(p[2:])(e)))
        if p.startswith("TF"): return over(st, l, lambda e: feasible(st, tf(p[2:])(e)))
        return None


    def candidates(self, node, info, entry, head):
        """the candidates that hold on entry, instantiated at the loop head"""
        key = self.lname(node)
        ann = self.annot.get(key)
        if ann is not None and not info.annotated: info.annotated = True; info.dropped |= set(ann[1])
        names = [n for n in self.cand_names(node, info, entry, head) if n not in info.dropped and (ann is None or n in ann[0])]
        goals = [(n, self.cand(n, entry, entry)) for n in names]
        bad = set(self.prover.failing(entry.pc, [(n, g) for n, g in goals if g is not None and not z3.is_true(g)]))
        bad |= {n for n, g in goals if g is None}
        info.dropped |= bad
        if any("@" not in n and self.has_fallback(n) for n in bad): return self.candidates(node, info, entry, head)
        res = []
        for n in names:
            if n in bad: continue
            f = self.cand(n, head, entry)
            if f is None: info.dropped.add(n); continue
            if z3.is_true(f): continue
            res.append((n, f))
        return res

    def failing(self, E, node, info, entry, names):
        goals = [(n, self.cand(n, E, entry)) for n in names]
        bad = [n for n, g in goals if g is None]
        return bad + self.prover.failing(E.pc, [(n, g) for n, g in goals if g is not None])

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st):
        if isinstance(t, ast.Name): st.frames[-1][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.some(st, v)
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts): raise Unsupported("starred assignment")
            if isinstance(v, Tup):
                if len(v.items) != n: raise Dead("wrong number of values")
                for e, x in zip(t.elts, v.items): self.assign(e, x, st)
            elif isinstance(v, Lst):
                for k, e in enumerate(t.elts):
                    self.assign(e, self.decode(st, st.lel[v.t][k], v.tv), st)
                st.assume(st.llen[v.t] == n)
            else:
                for e in t.elts: self.assign(e, self.bind(st, self.element(st, v)), st)
        elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value, st), t.attr, v, st)
        elif isinstance(t, ast.Subscript): self.setitem(self.ev(t.value, st), t.slice, v, st)
        else: raise Unsupported(f"assignment to {type(t).__name__}")

    def setattr(self, b, a, v, st):
        v = self.bind(st, v)
        b = self.some(st, b)
        if isinstance(b, Ag):
            if a == "solution":
                if isinstance(v, (Lst, Tup)): v = Opq(dim1=True)
                if numeric(v) or isinstance(v, Any_): v = Opq()
                st.sol = Store(st.sol, b.t, self.mat(st, v))
            elif a == "target":
                if isinstance(v, Opt): v = v.v
                t = v.t if isinstance(v, Tgt) else fint("unknown")
                st.tgt = Store(st.tgt, b.t, t)
            else:
                tv = self.attr_tv.setdefault(a, TV())
                e = self.encode(st, v, tv)
                if a not in st.attrs: st.attrs[a] = fresh(AI, "at_" + a); st.wf("attr", st.attrs[a])
                if tv.find().kind not in ("sca", "any"): st.attrs[a] = Store(st.attrs[a], b.t, e)
        elif isinstance(b, Obj):
            st.objs.setdefault(b.name, {})[a] = v
        elif isinstance(b, Opq):
            self.mutate(st, b)
        elif isinstance(b, (Any_, Sca)):
            raise Unsupported(f"attribute {a} of something untracked is set")
        elif isinstance(b, Const) and b.v is None: raise Dead("attribute of None")
        else: raise Unsupported(f"attribute {a} of {b} is set")

    def logmut(self, st, kind, t):
        """which unchanging locations hold the lists/arrays that are changed in place (for the candidate invariants)"""
        for loc, v in self.locs(st):
            if isinstance(v, Opt): v = v.v
            if kind == "lst" and isinstance(v, Lst) and v.t.eq(t): self.mutlocs.add(("lst", loc))
            if kind == "con":
                if isinstance(v, Opq) and v.t is not None and v.t.eq(t): self.mutlocs.add(("con", loc)); self.mutnames.add(loc[2])
                elif isinstance(v, Lst) and v.tv.find().kind in ("opq", "list") and is_get(t):
                    r = t.arg(0)
                    while is_get(r) and r.sort() != AI and r.sort() != I: r = r.arg(0)
                    if is_get(r) and r.arg(1).eq(v.t): self.mutnames.add(loc[2])
    mutlocs, mutnames = set(), set()

    def mutate(self, st, v, c=None):
        """an in-place change of an array"""
        self.logmut(st, "con", self.mat(st, v))
        for b in v.base: self.logmut(st, "con", b)
        c = fint("c") if c is None else c
        st.con = Store(st.con, self.mat(st, v), c)
        for b in v.base: st.con = Store(st.con, b, fint("c"))

    def setitem(self, b, sl, v, st):
        b = self.some(st, b)
        if isinstance(b, Lst):
            tv = b.tv.find()
            if isinstance(sl, ast.Slice):
                for x in (sl.lower, sl.upper, sl.step):
                    if x is not None: self.ev(x, st)
                src = self.listof(st, v) if not isinstance(v, Lst) else v
                self.draw_into(st, b, [b, src]); return
            idx = self.ev(sl, st)
            v = self.bind(st, v)
            e = self.encode(st, v, b.tv)
            self.logmut(st, "lst", b.t)
            row = st.lel[b.t]
            if tv.isdict:
                k = fint("i"); n = st.llen[b.t]
                st.assume(z3.And(0 <= k, k <= n))
                st.lel = Store(st.lel, b.t, Store(row, k, e))
                st.llen = Store(st.llen, b.t, z3.If(k == n, n + 1, n))
                return
            i = self.index(st, idx, st.llen[b.t])
            if isinstance(idx, Opq) and not intlike(idx) and self.maybe_array(idx): pass
            st.lel = Store(st.lel, b.t, Store(row, i, e))
        elif isinstance(b, Opq):
            c = None
            i = None
            if not isinstance(sl, ast.Slice):
                i = self.ev(sl, st) if not (isinstance(sl, ast.Tuple) and any(isinstance(x, ast.Slice) for x in sl.elts)) else None
            # writing into one's own coordinates what a feasible array has at the same coordinates keeps the content feasible
            if isinstance(v, Opq) and getattr(v, "src", None) is not None and isinstance(sl, ast.AST):
                s_id, s_txt = v.src
                if s_txt == ast.dump(sl) and s_txt == getattr(v, "srctxt", s_txt):
                    c = fint("c")
                    st.assume(z3.Implies(z3.And(Feas(st.con[self.mat(st, b)]), Feas(s_id)), Feas(c)))
            self.mutate(st, b, c)
        elif isinstance(b, Tup):
            i = self.ev(sl, st) if not isinstance(sl, ast.Slice) else None
            if isinstance(i, Const) and isinstance(i.v, int) and b.islist and -len(b.items) <= i.v < len(b.items): b.items[i.v] = v
            else: raise Unsupported("item of a literal is set")
        elif isinstance(b, (Any_, Sca)):
            raise Unsupported("item of something untracked is set")
        else: raise Unsupported(f"item of {b} is set")

    def maybe_array(self, v): return True

    def index(self, st, v, n):
        """an index value -> position term in [0, n)"""
        v = self.some(st, v)
        if isinstance(v, Const) and isinstance(v.v, int) and not isinstance(v.v, bool):
            k = z3.IntVal(v.v) if v.v >= 0 else n + v.v
            st.assume(z3.And(0 <= k, k < n))
            return k
        if isinstance(v, IntV):
            k = z3.simplify(v.t)
            p = fint("i")
            st.assume(z3.And(p == z3.If(v.t < 0, v.t + n, v.t), 0 <= p, p < n))
            return p
        p = fint("i")
        st.assume(z3.And(0 <= p, p < n))
        return p

    # ------------------------------------------------------------ lists
    def newlist(self, st, tv, n=None, row=None):
        l = st.new("l")
        if n is None: n = fint("n"); st.assume(n >= 0)
        st.llen = Store(st.llen, l, n)
        if row is not None: st.lel = Store(st.lel, l, row)
        return Lst(l, tv)

    def freshrow(self, st, name="row"):
        r = fresh(AI, name)
        x = z3.Int("x")
        st.assume(z3.ForAll([x], r[x] < st.alloc, patterns=[r[x]]))
        return r

    def drawn_row(self, st, srcs, n):
        """a row of n elements, each taken from one of the given lists (as they are now)"""
        r = self.freshrow(st)
        i = z3.Int("i")
        alts = []
        for s in srcs:
            p = z3.Function(f"pick!{fint().decl().name()}", I, I)
            alts.append(z3.And(r[i] == st.lel[s.t][p(i)], 0 <= p(i), p(i) < st.llen[s.t]))
        if alts: st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Or(alts) if len(alts) > 1 else alts[0]), patterns=[r[i]]))
        return r

    def draw(self, st, srcs, node, n=None, tv=None):
        srcs = [s for s in srcs]
        if tv is None: tv = self.tv(node, "draw")
        for s in srcs: unify(tv, s.tv)
        if n is None: n = fint("n"); st.assume(n >= 0)
        row = self.drawn_row(st, srcs, n)
        return self.newlist(st, tv, n, row)

    def draw_into(self, st, b, srcs, n=None):
        for s in srcs: unify(b.tv, s.tv)
        if n is None: n = fint("n"); st.assume(n >= 0)
        row = self.drawn_row(st, srcs, n)
        self.logmut(st, "lst", b.t)
        st.lel = Store(st.lel, b.t, row)
        st.llen = Store(st.llen, b.t, n)

    def append(self, st, l, v):
        v = self.bind(st, v)
        self.logmut(st, "lst", l.t)
        e = self.encode(st, v, l.tv)
        n = st.llen[l.t]
        st.lel = Store(st.lel, l.t, Store(st.lel[l.t], n, e))
        st.llen = Store(st.llen, l.t, n + 1)

    def extend(self, st, l, v):
        v = self.some(st, v)
        if isinstance(v, Tup):
            for x in v.items: self.append(st, l, x)
            return
        src = v if isinstance(v, Lst) else self.listof(st, v)
        n = fint("n"); st.assume(n == st.llen[l.t] + st.llen[src.t])
        self.draw_into(st, l, [l, src], n)

    def listof(self, st, v, node=None):
        """list(v) for any iterable value"""
        v = self.some(st, v)
        if isinstance(v, Lst):
            if v.tv.find().isdict: return self.newlist(st, TV("sca"))
            l = self.newlist(st, v.tv, st.llen[v.t], st.lel[v.t])
            return l
        if isinstance(v, Tup): return self.literal(st, v.items, node)
        if isinstance(v, Rng): return self.newlist(st, TV("sca"))
        if isinstance(v, Seq):
            x = st.clone()
            try: e = v.get(x)
            except Dead: return self.newlist(st, TV())
            if numeric(e): return self.newlist(st, TV("sca"))
            if isinstance(e, Opq): return self.newlist_unknown(st, TV("opq"))
            if isinstance(e, Lst) or isinstance(e, Ag):
                return self.newlist_seq(st, v, e)
            return Any_("list of an iterator")
        if isinstance(v, (Opq, Sca)):
            if isinstance(v, Opq) and v.dim1: return self.newlist(st, TV("sca"))
            l = self.newlist(st, TV("opq"))
            st.lel = Store(st.lel, l.t, self.freshrow(st))
            return l
        if isinstance(v, Const) and isinstance(v.v, (str, tuple, list)): return self.newlist(st, TV("sca"))
        if isinstance(v, Any_): return v
        raise Unsupported(f"list({v})")

    def newlist_unknown(self, st, tv):
        l = self.newlist(st, tv)
        st.lel = Store(st.lel, l.t, self.freshrow(st))
        return l

    def newlist_seq(self, st, v, e): raise Unsupported("list of an iterator of agents")

    def literal(self, st, items, node=None):
        tv = self.tv(node, "lit") if node is not None else TV()
        l = self.newlist(st, tv, z3.IntVal(0), None)
        for x in items: self.append(st, l, x)
        return l

    # ------------------------------------------------------------ truth values
    def truth(self, st, v):
        if isinstance(v, BoolV): return v.t
        if isinstance(v, Const): return z3.BoolVal(bool(v.v))
        if isinstance(v, IntV): return v.t != 0
        if isinstance(v, Lst): return st.llen[v.t] > 0
        if isinstance(v, Tup): return z3.BoolVal(bool(v.items))
        if isinstance(v, Opt): return z3.And(z3.Not(v.isnone), self.truth(st, v.v))
        if isinstance(v, (Ag, Obj, Tgt, ClsV, Fun)): return TRUE
        return fbool("cond")

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None: raise Unsupported(f"expression {type(e).__name__}")
        return m(e, st)

    def e_Constant(self, e, st): return Const(e.value)
    def e_JoinedStr(self, e, st): return Any_("text")
    def e_NamedExpr(self, e, st):
        v = self.bind(st, self.ev(e.value, st)); self.assign(e.target, v, st); return v
    def e_Starred(self, e, st): raise Unsupported("starred")

    def e_Name(self, e, st):
        f = st.frames[-1]
        if e.id in f:
            v = f[e.id]
            if isinstance(v, Undef): raise Dead(f"{e.id} is not set")
            return v
        return self.globalname(e.id, st)

    BUILTINS = {"len", "range", "enumerate", "zip", "list", "tuple", "set", "dict", "int", "float", "bool", "abs", "min", "max", "sum", "sorted", "reversed", "isinstance", "print",
                "round", "any", "all", "type", "str", "hasattr", "getattr", "setattr", "super", "next", "iter", "map", "filter", "pow", "divmod", "frozenset", "id", "callable", "vars"}

    def globalname(self, n, st):
        for mod, cls in self.ctx[::-1][:1]:
            r = self.repo.lookup(mod, n)
            if r is not None: return self.denote(r, st)
        if n in self.BUILTINS: return Fun(name=n)
        if n in ("True", "False", "None"): return Const({"True": True, "False": False, "None": None}[n])
        if n in ("ValueError", "TypeError", "Exception", "KeyError", "IndexError", "NotImplementedError", "ZeroDivisionError", "OverflowError", "FloatingPointError", "RuntimeError"): return Any_(n)
        raise Dead(f"name {n} is not defined")

    def denote(self, r, st):
        if isinstance(r, Cls): return ClsV(r)
        if isinstance(r, Fn): return Fun(fn=r)
        if r[0] == "mod": return ModV(r[1])
        if r[0] == "ext": return Fun(name=r[1])
        if r[0] == "const":
            self.ctx.append((r[2], None)); 
            try: return self.ev(r[1], st)
            finally: self.ctx.pop()

    def e_Attribute(self, e, st):
        b = self.ev(e.value, st)
        return self.getattr(b, e.attr, st, e)

    def getattr(self, b, a, st, node=None):
        b = self.some(st, b)
        if isinstance(b, Const) and b.v is None: raise Dead(f"None.{a}")
        if isinstance(b, Ag):
            if a == "solution":
                return Opq(st.sol[b.t], dim1=True)
            if a == "target": return Tgt(st.tgt[b.t])
            if a in ("id",): return Sca()
            if a in ("kwargs",): return Any_("kwargs")
            ag = self.repo.cls("mealpy.utils.agent.Agent")
            if a in ag.fns: return Fun(name="Agent." + a, self_=b)
            tv = self.attr_tv.setdefault(a, TV())
            if tv.find().kind is None and not tv.find().opt: raise Dead(f"agents have no {a}")
            if a not in st.attrs: st.attrs[a] = fresh(AI, "at_" + a); st.wf("attr", st.attrs[a])
            return self.decode(st, st.attrs[a][b.t], tv)
        if isinstance(b, Tgt):
            if a == "fitness": return Sca()
            if a in ("objectives", "weights"): return Opq()
            if a == "copy": return Fun(name="Target.copy", self_=b)
            return Fun(name="Target." + a, self_=b)
        if isinstance(b, Obj):
            d = st.objs.get(b.name, {})
            if a in d:
                if isinstance(d[a], Undef): raise Dead(f"{b.name}.{a} is not set")
                return d[a]
            r = self.objattr(b, a, st)
            if r is not None: return r
            if b.cls is not None:
                f = self.repo.method(b.cls, a)
                if f is None and a.startswith("__"): f = None
                if f is not None:
                    if f.prop: return self.call_fn(f, b, [], {}, st, node)
                    return Fun(fn=f, self_=None if f.static else b)
                c = self.repo.const(b.cls, a)
                if c is not None:
                    self.ctx.append((c[1].mod, c[1]))
                    try: return self.ev(c[0], st)
                    finally: self.ctx.pop()
            if b.cls is None: return Any_(f"{b.name}.{a}")
            raise Dead(f"{b.name} has no {a}")
        if isinstance(b, ClsV):
            f = self.repo.method(b.c, a)
            if f is not None: return Fun(fn=f, self_=None, cls=b.c)
            c = self.repo.const(b.c, a)
            if c is not None:
                self.ctx.append((c[1].mod, c[1]))
                try: return self.ev(c[0], st)
                finally: self.ctx.pop()
            return Any_(f"{b.c.name}.{a}")
        if isinstance(b, ModV):
            if b.name in self.repo.mods:
                r = self.repo.lookup(self.repo.mods[b.name], a)
                if r is None: raise Dead(f"{b.name}.{a}")
                return self.denote(r, st)
            if a in ("pi", "e", "inf", "nan", "Inf", "NaN"): return Sca()
            if a in ("random", "linalg", "fft"): return ModV(b.name + "." + a)
            return Fun(name=f"{b.name}.{a}")
        if isinstance(b, (Opq, Sca, IntV, BoolV)) or is_num_const(b):
            if a in ("size", "ndim"): return Sca()
            if a == "shape": return Opq(dim1=True)
            if a in ("T", "flat", "real", "imag"): return self.view(st, b)
            return Fun(name="array." + a, self_=b)
        if isinstance(b, Lst): return Fun(name=("dict." if b.tv.find().isdict else "list.") + a, self_=b)
        if isinstance(b, Tup): return Fun(name="tuple." + a, self_=b)
        if isinstance(b, Const): return Fun(name="const." + a, self_=b)
        if isinstance(b, Fun): return Fun(name=f"{b.name}.{a}") if b.name else Any_("attribute of a function")
        return Fun(name="any." + a, self_=b)

    def objattr(self, b, a, st): return None

    def view(self, st, b):
        if not isinstance(b, Opq): return Sca() if not isinstance(b, (Any_, Lst, Tup)) else Opq()
        t = self.mat(st, b)
        return Opq(self.viewid(st), dim1=b.dim1, base=(t,) + b.base)

    def e_Subscript(self, e, st):
        if isinstance(e.value, ast.Attribute) and e.value.attr == "parameters" and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
            o = self.ev(e.value.value, st)
            if isinstance(o, Obj) and o.name == "self" and e.slice.value in st.objs.get("$params", {}): return st.objs["$params"][e.slice.value]
        b = self.ev(e.value, st)
        return self.getitem(b, e.slice, st, e)

    def getitem(self, b, sl, st, node):
        b = self.some(st, b)
        if isinstance(b, Const) and b.v is None: raise Dead("None[...]")
        if isinstance(sl, ast.Slice):
            lo, hi, step = [self.ev(x, st) if x is not None else None for x in (sl.lower, sl.upper, sl.step)]
            if isinstance(b, Lst): return self.slice(st, b, lo, hi, step, node)
            if isinstance(b, Tup):
                c = lambda v: v is None or (isinstance(v, Const) and (v.v is None or isinstance(v.v, int)))
                if c(lo) and c(hi) and c(step):
                    g = lambda v: None if v is None else v.v
                    return Tup(b.items[slice(g(lo), g(hi), g(step))], b.islist)
                return self.slice(st, self.literal(st, b.items, node), lo, hi, step, node)
            if isinstance(b, Opq): return self.view(st, b)
            return Any_("slice")
        if isinstance(sl, ast.Tuple) and any(isinstance(x, ast.Slice) for x in sl.elts):
            for x in sl.elts:
                if not isinstance(x, ast.Slice): self.ev(x, st)
            return self.view(st, b) if isinstance(b, Opq) else Opq()
        i = self.ev(sl, st)
        if isinstance(i, Opt): i = i.v
        if isinstance(b, Lst):
            tv = b.tv.find()
            if tv.kind is None: raise Dead("element of an empty list")
            k = self.index(st, i if not tv.isdict else Sca(), st.llen[b.t])
            return self.decode(st, st.lel[b.t][k], b.tv)
        if isinstance(b, Tup):
            if isinstance(i, Const) and isinstance(i.v, int):
                if -len(b.items) <= i.v < len(b.items): return b.items[i.v]
                raise Dead("index out of range")
            if not b.items: raise Dead("empty")
            sts, outs = [], []
            return self.choose(st, b.items)
        if isinstance(b, Opq):
            t = self.mat(st, b)
            if b.dim1:
                if intlike(i): return Sca()
                r = Opq(dim1=True) if isinstance(i, (Opq, Lst, Tup)) else Sca()
                if isinstance(r, Opq): r.src = (st.con[t], ast.dump(sl))
                return r
            if isinstance(i, (Lst, Tup, BoolV)): return Opq()
            return Opq(self.viewid(st), base=(t,) + b.base)
        if isinstance(b, Const) and isinstance(b.v, (str, tuple, list, dict)):
            if isinstance(i, Const):
                try:
                    r = b.v[i.v]
                    return Const(r)
                except Exception: raise Dead("bad index")
            return Any_("item of a constant")
        if isinstance(b, (Sca, IntV, BoolV)) or is_num_const(b): return Sca()
        return Any_("item of something untracked")

    def choose(self, st, vals):
        """one of several values, nobody knows which"""
        sts = [st.clone() for _ in vals]
        for s, v in zip(sts, vals): s.frames[-1]["$c"] = v
        m = self.merge(sts)
        v = m.frames[-1].pop("$c")
        st.become(m)
        return v

    def slice(self, st, b, lo, hi, step, node):
        tv = b.tv
        n = st.llen[b.t]
        c0 = lo is None or (isinstance(lo, Const) and (lo.v is None or lo.v == 0))
        # the elements of a slice are elements of the list
        if step is None and c0 and (hi is None or (isinstance(hi, Const) and hi.v is None)):
            return self.newlist(st, tv, n, st.lel[b.t])
        m = fint("n"); st.assume(z3.And(0 <= m, m <= n))
        if step is None and (c0 or intlike(lo)) and (hi is None or intlike(hi) or (isinstance(hi, Const) and hi.v is None)):
            cl = lambda t: z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t))
            a = z3.IntVal(0) if c0 else cl(iterm(lo)); b_ = cl(iterm(hi)) if hi is not None and intlike(hi) else n
            st.assume(m == z3.If(b_ > a, b_ - a, 0))
        if step is None and (lo is None or intlike(lo)):
            lo_t = z3.IntVal(0) if c0 else (iterm(lo) if isinstance(lo, IntV) or lo.v >= 0 else None)
            if lo_t is not None:
                if isinstance(lo, IntV): lo_t = z3.If(lo.t < 0, z3.If(lo.t + n < 0, z3.IntVal(0), lo.t + n), lo.t)
                r = self.freshrow(st)
                i = z3.Int("i")
                st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(r[i] == st.lel[b.t][i + lo_t], i + lo_t < n)), patterns=[r[i]]))
                return self.newlist(st, tv, m, r)
        return self.draw(st, [b], node, m, tv=tv)

    def e_Slice(self, e, st): raise Unsupported("slice object")

    def e_List(self, e, st):
        vals = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                if isinstance(v, Tup): vals += v.items; continue
                if isinstance(v, Lst):
                    l = self.literal(st, vals, e); rest = [v]
                    k = e.elts.index(x)
                    self.extend(st, l, v)
                    for y in e.elts[k + 1:]:
                        if isinstance(y, ast.Starred): self.extend(st, l, self.ev(y.value, st))
                        else: self.append(st, l, self.ev(y, st))
                    return l
                return Any_("starred list")
            vals.append(self.bind(st, self.ev(x, st)))
        if not vals: return self.literal(st, [], e)
        ks = {self.kclass(v) for v in vals}
        if len(ks) == 1 and ks <= {"agent", "opq", "list", "tgt"}: return self.literal(st, vals, e)
        return Tup(vals, True)

    def kclass(self, v):
        if isinstance(v, Opt): return "opt"
        return "agent" if isinstance(v, Ag) else "opq" if isinstance(v, Opq) else "list" if isinstance(v, Lst) else "tgt" if isinstance(v, Tgt) else type(v).__name__

    def e_Tuple(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                if isinstance(v, Tup): out += v.items; continue
                return Any_("starred tuple")
            out.append(self.bind(st, self.ev(x, st)))
        return Tup(out, False)

    def e_Set(self, e, st):
        for x in e.elts: self.ev(x, st)
        return Sca()

    def e_Dict(self, e, st):
        tv = self.tv(e, "dict"); tv.find().isdict = True
        l = self.newlist(st, tv, z3.IntVal(0))
        for k, v in zip(e.keys, e.values):
            if k is None: raise Unsupported("**dict")
            self.ev(k, st); self.append(st, l, self.ev(v, st))
        return l

    def e_Lambda(self, e, st): return Fun(lam=e, frame=dict(st.frames[-1]), mod=self.ctx[-1][0])

    def e_IfExp(self, e, st):
        c = z3.simplify(self.truth(st, self.ev(e.test, st)))
        if z3.is_true(c): return self.ev(e.body, st)
        if z3.is_false(c): return self.ev(e.orelse, st)
        return self.two(st, c, lambda s: self.ev(e.body, s), lambda s: self.ev(e.orelse, s))

    def two(self, st, c, f, g):
        a, b = st.clone(), st.clone()
        a.assume(c); b.assume(z3.Not(c))
        res = []
        for s, h in ((a, f), (b, g)):
            try:
                v = self.bind(s, h(s)); s.frames[-1]["$c"] = v; res.append(s)
            except Dead: pass
        if not res: raise Dead("both branches end")
        m = self.merge(res)
        v = m.frames[-1].pop("$c")
        st.become(m)
        return v

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0], st)
        for x in e.values[1:]:
            c = z3.simplify(self.truth(st, v))
            if z3.is_true(c):
                if not isand: return v
                v = self.ev(x, st); continue
            if z3.is_false(c):
                if isand: return v
                v = self.ev(x, st); continue
            old = v
            def other(s): return BoolV(self.truth(s, self.ev(x, s)))
            if isand: v = self.two(st, c, other, lambda s: BoolV(FALSE))
            else: v = self.two(st, c, lambda s: BoolV(TRUE), other)
        return v

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not): return BoolV(z3.Not(self.truth(st, v)))
        if isinstance(e.op, ast.USub):
            if is_num_const(v): return Const(-v.v)
            if isinstance(v, IntV): return IntV(-v.t)
        if isinstance(v, (Sca, IntV, BoolV)) or is_num_const(v): return Sca()
        return Opq(dim1=isinstance(v, Opq) and v.dim1)

    def e_Compare(self, e, st):
        l = self.ev(e.left, st)
        res = None
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r, st)
            c = self.compare(op, l, r, st)
            if res is None: res = c
            elif isinstance(res, BoolV) and isinstance(c, BoolV): res = BoolV(z3.And(res.t, c.t))
            else: res = Opq() if isinstance(c, Opq) or isinstance(res, Opq) else Sca()
            l = r
        return res

    def compare(self, op, l, r, st):
        if isinstance(op, (ast.Is, ast.IsNot)):
            f = None
            if isinstance(r, Const) and r.v is None:
                if isinstance(l, Opt): f = l.isnone
                elif isinstance(l, Const): f = z3.BoolVal(l.v is None)
                elif isinstance(l, Any_): f = fbool("cond")
                else: f = FALSE
            elif isinstance(l, Ag) and isinstance(r, Ag): f = l.t == r.t
            elif isinstance(l, Const) and isinstance(r, Const): f = z3.BoolVal(l.v is r.v)
            else: f = fbool("cond")
            return BoolV(f if isinstance(op, ast.Is) else z3.Not(f))
        if isinstance(op, (ast.In, ast.NotIn)):
            f = None
            if isinstance(l, Const):
                items = None
                if isinstance(r, Tup) and all(isinstance(x, Const) for x in r.items): items = [x.v for x in r.items]
                elif isinstance(r, Const) and isinstance(r.v, (tuple, list, str)): items = r.v
                if items is not None: f = z3.BoolVal(l.v in items)
            if f is None: f = fbool("cond")
            return BoolV(f if isinstance(op, ast.In) else z3.Not(f))
        if isinstance(l, Opt): l = l.v
        if isinstance(r, Opt): r = r.v
        if isinstance(l, Const) and isinstance(r, Const):
            try:
                f = {ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b, ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b}[type(op)](l.v, r.v)
                return Const(bool(f))
            except TypeError: raise Dead("uncomparable")
        if intlike(l) and intlike(r):
            a, b = iterm(l), iterm(r)
            return BoolV({ast.Eq: a == b, ast.NotEq: a != b, ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)])
        if isinstance(l, StrSym) or isinstance(r, StrSym):
            s, c = (l, r) if isinstance(l, StrSym) else (r, l)
            if isinstance(c, Const) and c.v in ("min", "max"):
                f = s.ismin if c.v == "min" else z3.Not(s.ismin)
                return BoolV(f if isinstance(op, ast.Eq) else z3.Not(f))
            return BoolV(fbool("cond"))
        if isinstance(l, (Opq,)) or isinstance(r, (Opq,)):
            return Opq(dim1=any(isinstance(x, Opq) and x.dim1 for x in (l, r)))
        return BoolV(fbool("cond"))

    def e_BinOp(self, e, st):
        l = self.ev(e.left, st); r = self.ev(e.right, st)
        return self.binop(e.op, l, r, st, e)

    def binop(self, op, l, r, st, node):
        l = self.some(st, l)
        r = self.some(st, r)
        if is_num_const(l) and is_num_const(r):
            try:
                return Const({ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b, ast.Pow: lambda a, b: a ** b}[type(op)](l.v, r.v))
            except (KeyError, ZeroDivisionError, OverflowError): return Sca()
        if intlike(l) and intlike(r):
            a, b = iterm(l), iterm(r)
            if isinstance(op, ast.Add): return IntV(a + b)
            if isinstance(op, ast.Sub): return IntV(a - b)
            if isinstance(op, ast.Mult):
                if isinstance(l, Const) or isinstance(r, Const): return IntV(a * b)
                return IntV(fint("i"))
            if isinstance(op, (ast.FloorDiv, ast.Mod)) and isinstance(r, Const) and r.v > 0:
                return IntV(a / b if isinstance(op, ast.FloorDiv) else a % b)
            if isinstance(op, (ast.FloorDiv, ast.Mod)): return IntV(fint("i"))
            return Sca()
        if isinstance(op, ast.Add):
            if isinstance(l, Tup) and isinstance(r, Tup): return Tup(l.items + r.items, l.islist)
            if isinstance(l, (Lst, Tup)) and isinstance(r, (Lst, Tup)):
                a = l if isinstance(l, Lst) else self.literal(st, l.items, node)
                b = r if isinstance(r, Lst) else self.literal(st, r.items, node)
                n = fint("n"); st.assume(n == st.llen[a.t] + st.llen[b.t])
                return self.draw(st, [a, b], node, n, tv=a.tv)
        if isinstance(op, ast.Mult):
            a, b = (l, r) if isinstance(l, (Lst, Tup)) else (r, l)
            if isinstance(a, (Lst, Tup)) and (numeric(b)):
                if isinstance(a, Tup):
                    if isinstance(b, Const) and 0 <= b.v <= 8: return Tup(a.items * b.v, a.islist)
                    a = self.literal(st, a.items, node)
                n = fint("n"); st.assume(n >= 0)
                if intlike(b): st.assume(z3.Implies(st.llen[a.t] == 1, n == z3.If(iterm(b) > 0, iterm(b), 0)))
                return self.draw(st, [a], node, n, tv=a.tv)
        if isinstance(l, (Lst, Tup)) or isinstance(r, (Lst, Tup)):
            return Opq()
        if isinstance(l, Const) and isinstance(l.v, str) or isinstance(r, Const) and isinstance(r.v, str): return Any_("text")
        if numeric(l) and numeric(r): return Sca()
        if isinstance(l, (Opq,)) or isinstance(r, (Opq,)):
            d = all((isinstance(x, Opq) and x.dim1) or numeric(x) for x in (l, r)) and not isinstance(op, ast.MatMult)
            return Opq(dim1=d)
        if isinstance(l, (Ag, Obj)) or isinstance(r, (Ag, Obj)): raise Unsupported("arithmetic on agents")
        return Any_("arithmetic")

    # comprehensions ----------------------------------------------------------
    def e_ListComp(self, e, st): return self.comp(e, st)
    def e_GeneratorExp(self, e, st): return self.comp(e, st)
    def e_SetComp(self, e, st):
        self.comp(e, st); return Sca()

    def e_DictComp(self, e, st):
        l = self.comp(e, st, elt=e.value)
        if isinstance(l, Lst): l.tv.find().isdict = True
        return l

    def comp(self, e, st, elt=None):
        elt = e.elt if elt is None else elt
        g = e.generators[0]
        it = self.ev(g.iter, st)
        it = self.some(st, it)
        if isinstance(it, Opq): self.mat(st, it)
        if len(e.generators) == 1 and isinstance(it, Tup) and not g.ifs:
            vals = []
            saved = dict(st.frames[-1])
            for x in it.items:
                self.assign(g.target, x, st); vals.append(self.bind(st, self.ev(elt, st)))
            st.frames[-1] = {**{k: v for k, v in st.frames[-1].items() if k in saved}}
            for k, v in saved.items(): st.frames[-1][k] = v
            ks = {self.kclass(v) for v in vals}
            if len(ks) == 1 and ks <= {"agent", "opq", "list", "tgt"}: return self.literal(st, vals, e)
            return Tup(vals, True)
        # pure element expression: defined pointwise
        names = [n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)]
        saved = {n: st.frames[-1].get(n) for n in names}
        try:
            if len(e.generators) == 1 and not g.ifs and isinstance(it, Lst) and not it.tv.find().isdict:
                r = self.pointwise(e, st, it, g.target, elt)
                if r is not None: return r
            return self.comp_loop(e, st, it, elt)
        finally:
            for n, v in saved.items():
                if v is None: st.frames[-1].pop(n, None)
                else: st.frames[-1][n] = v

    def pointwise(self, e, st, it, target, elt):
        tvl = it.tv.find()
        if tvl.kind is None: return self.newlist(st, self.tv(e, "comp"), st.llen[it.t])
        x = st.clone()
        i = fint("pi")
        x.assume(z3.And(0 <= i, i < x.llen[it.t]))
        pc0 = x.pc
        # [agent.copy() for agent in pop]
        if isinstance(target, ast.Name) and isinstance(elt, ast.Call) and isinstance(elt.func, ast.Attribute) and elt.func.attr == "copy" and not elt.args and isinstance(elt.func.value, ast.Name) and elt.func.value.id == target.id and tvl.kind == "agent" and not tvl.opt:
            return self.copies(st, it, e)
        mark = len(self.obls)
        try:
            self.assign(target, self.decode(x, x.lel[it.t][i], it.tv), x)
            v = self.ev(elt, x)
        except Dead: return None
        if len(self.obls) != mark: del self.obls[mark:]; return None
        pure = x.pc is pc0 and all(getattr(x, h).eq(getattr(st, h)) for h in HEAP) and x.alloc.eq(st.alloc) and set(x.attrs) == set(st.attrs) and all(x.attrs[a].eq(st.attrs[a]) for a in x.attrs)
        objs_same = all(x.objs[o].get(k) is v2 for o, d in st.objs.items() for k, v2 in d.items())
        if not objs_same: return None
        tv = self.tv(e, "comp")
        if numeric(v):
            if pure or self.harmless(st, x): unify(tv, TV("sca")); return self.newlist(st, tv, st.llen[it.t])
            return None
        if isinstance(v, Opq) and v.t is None and (pure or self.harmless(st, x)) and not v.feas and v.content is None:
            unify(tv, TV("opq")); l = self.newlist(st, tv, st.llen[it.t])
            # every element is a new array
            n = fint("span"); st.assume(n >= 0)
            row = fresh(AI, "row"); k = z3.Int("k")
            st.assume(z3.ForAll([k], z3.And(row[k] >= st.alloc, row[k] < st.alloc + n), patterns=[row[k]]))
            st.alloc = st.alloc + n
            st.lel = Store(st.lel, l.t, row)
            con0 = st.con; st.con = fresh(AI, "con")
            st.assume(z3.ForAll([k], z3.Implies(k < l.t + 1, st.con[k] == con0[k]), patterns=[st.con[k]]))
            return l
        if not pure: return None
        if isinstance(v, Opq) and v.t is not None and not v.base:
            t, kind = v.t, TV("opq")
        elif isinstance(v, (Ag, Tgt)): t, kind = v.t, self.kind_of(v)
        elif isinstance(v, Lst): t, kind = v.t, self.kind_of(v)
        else: return None
        unify(tv, kind)
        row = fresh(AI, "row")
        k = z3.Int("k")
        st.assume(z3.ForAll([k], row[k] == z3.substitute(t, (i, k)), patterns=[row[k]]))
        return self.newlist(st, tv, st.llen[it.t], row)

    def harmless(self, st, x):
        """x differs from st only by facts about fresh scalars"""
        return all(getattr(x, h).eq(getattr(st, h)) for h in HEAP) and all(x.attrs.get(a) is not None and x.attrs[a].eq(st.attrs[a]) for a in st.attrs)

    def comp_loop(self, e, st, it, elt):
        """any other comprehension: the loop it abbreviates"""
        tv = self.tv(e, "comp")
        out = self.newlist(st, tv, z3.IntVal(0))
        nm = f"$comp{self.loopno(gens0(e))}"
        st.frames[-1][nm] = out
        g = e.generators[0]
        gens = e.generators
        def inner(k, s):
            """nested generators as nested loops"""
            if k == len(gens):
                self.append(s, s.frames[-1][nm], self.ev(elt, s)); return dict(next=[s], brk=[], cont=[], ret=[])
            gk = gens[k]
            itk = it if k == 0 else self.ev(gk.iter, s)
            itk = self.some(s, itk)
            if isinstance(itk, Tup):
                o = dict(next=[s], brk=[], cont=[], ret=[])
                for x in itk.items:
                    cur = self.merge(o["next"])
                    self.assign(gk.target, x, cur)
                    o = cond_body(k, cur)
                return o
            setup, done = self.for_hooks(gk.target, itk)
            return self.loop(gk, s, setup, done, body=lambda h: cond_body(k, h), it=itk)
        def cond_body(k, h):
            nxt = h; done = []
            for c in gens[k].ifs:
                t = self.truth(nxt, self.ev(c, nxt))
                b = nxt.clone(); b.assume(z3.Not(t)); nxt.assume(t); done.append(b)
            try: o = inner(k + 1, nxt)
            except Dead: o = dict(next=[], brk=[], cont=[], ret=[])
            return dict(next=o["next"] + done, brk=[], cont=o["cont"], ret=[])
        o = inner(0, st)
        m = self.merge(o["next"])
        if m is None: raise Dead("comprehension ends")
        st.become(m)
        return st.frames[-1].pop(nm)

    def copies(self, st, it, node, n=None):
        """a new list of copies of the agents of a list"""
        n = st.llen[it.t] if n is None else n
        l = self.newlist(st, it.tv, n)
        base = st.alloc
        k = z3.Int("k"); 
        row = fresh(AI, "row")
        src = st.lel[it.t]
        old = {h: getattr(st, h) for h in ("con", "sol", "tgt")}
        for h in old: setattr(st, h, fresh(AI, h))
        na = fint("alloc"); st.assume(na >= base)
        st.alloc = na
        x = z3.Int("x")
        for h in old: st.assume(z3.ForAll([x], z3.Implies(x < base, getattr(st, h)[x] == old[h][x]), patterns=[getattr(st, h)[x]]))
        st.wf("sol")
        inb = z3.And(0 <= k, k < n)
        self.fresh_agents(st, row, k, inb, base, na, [st.con[st.sol[row[k]]] == old["con"][old["sol"][src[k]]], st.tgt[row[k]] == old["tgt"][src[k]]])
        for a in list(st.attrs):
            tv = self.attr_tv[a].find()
            if tv.kind in ("sca", "any", None): continue
            oa = st.attrs[a]; na_ = fresh(AI, "at_" + a); st.attrs[a] = na_
            st.assume(z3.ForAll([x], z3.Implies(x < base, na_[x] == oa[x]), patterns=[na_[x]]))
            st.wf("attr", na_)
            if tv.kind == "opq": st.assume(z3.ForAll([k], z3.Implies(inb, st.con[na_[row[k]]] == old["con"][oa[src[k]]]), patterns=[row[k]]))
            else: st.assume(z3.ForAll([k], z3.Implies(inb, na_[row[k]] == oa[src[k]]), patterns=[row[k]]))
        st.lel = Store(st.lel, l.t, row)
        return l

    @staticmethod
    def fresh_agents(st, row, k, inb, base, na, facts):
        """row[0..n) are distinct new agents with distinct new arrays, allocated in [base, na)"""
        x = z3.Int("x")
        st.assume(z3.ForAll([x], z3.Implies(x >= base, st.sol[x] >= base), patterns=[st.sol[x]]))
        u = fint().decl().name()
        ix, ix2 = z3.Function(f"ix!{u}", I, I), z3.Function(f"ixs!{u}", I, I)
        s = st.sol[row[k]]
        st.assume(z3.ForAll([k], z3.And(row[k] >= base, row[k] < na), patterns=[row[k]]))
        st.assume(z3.ForAll([k], z3.Implies(inb, z3.And([ix(row[k]) == k, s >= base, s < na, ix2(s) == k] + facts)), patterns=[row[k]]))

    def copy_agent(self, st, r):
        a = st.new("a"); c = st.con[st.sol[r]]
        n = st.new("ag")
        st.con = Store(st.con, a, c)
        t = st.tgt[r]
        st.sol = Store(st.sol, n, a); st.tgt = Store(st.tgt, n, t)
        for x in list(st.attrs):
            tv = self.attr_tv[x].find()
            if tv.kind in ("sca", "any", None): continue
            v = st.attrs[x][r]
            if tv.kind == "opq":
                b = st.new("a"); st.con = Store(st.con, b, st.con[v]); v = b
            st.attrs[x] = Store(st.attrs[x], n, v)
        return Ag(n)

    def new_agent(self, st, sol=None, target=None, kw=None):
        r = st.new("ag")
        if sol is None or (isinstance(sol, Const) and sol.v is None): sol = Opq()
        self.setattr(Ag(r), "solution", sol, st)
        if isinstance(target, Opt): target = target.v
        st.tgt = Store(st.tgt, r, target.t if isinstance(target, Tgt) else fint("notarget"))
        for k, v in (kw or {}).items(): self.setattr(Ag(r), k, v, st)
        return Ag(r)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        # super().method(...)
        f = e.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            selfv = st.frames[-1].get("self")
            cls = self.ctx[-1][1]
            fn = self.repo.method(selfv.cls, f.attr, after=cls)
            args, kw = self.args(e, st)
            if fn is None: return NONE
            return self.call(Fun(fn=fn, self_=selfv), args, kw, st, e)
        # a key function is a pure number
        fv = self.ev(f, st)
        args, kw = self.args(e, st)
        return self.call(fv, args, kw, st, e)

    def args(self, e, st):
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                if isinstance(v, Tup): args += v.items
                elif isinstance(v, (Any_, Opq, Sca)): args.append(Any_("starred argument"))
                else: raise Unsupported("starred argument")
            else: args.append(self.ev(a, st))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                if isinstance(v, Any_): kw["**"] = v; continue
                raise Unsupported("** argument")
            kw[k.arg] = v
        return args, kw

    def call(self, fv, args, kw, st, node):
        fv = self.some(st, fv)
        if isinstance(fv, Fun) and fv.fn is not None:
            c = self.contract(fv.fn, fv.self_, args, kw, st, node)
            if c is not NotImplemented: return c
            return self.call_fn(fv.fn, fv.self_, args, kw, st, node, fv)
        if isinstance(fv, Fun) and fv.lam is not None:
            fr = dict(fv.frame)
            for p, a in zip(fv.lam.args.args, args): fr[p.arg] = self.bind(st, a)
            st.frames.append(fr); self.ctx.append((fv.mod, None))
            try: r = self.bind(st, self.ev(fv.lam.body, st))
            finally: self.ctx.pop(); st.frames.pop()
            return r
        if isinstance(fv, ClsV): return self.construct(fv.c, args, kw, st, node)
        if isinstance(fv, Fun): return self.external(fv.name, fv.self_, args, kw, st, node)
        if isinstance(fv, (Any_, Sca, Opq)):
            for a in list(args) + list(kw.values()): self.leak(st, a)
            return Any_("result of something untracked")
        raise Unsupported(f"call of {fv}")

    def leak(self, st, v):
        if isinstance(v, Opt): v = v.v
        if isinstance(v, (Ag,)) or (isinstance(v, Lst) and v.tv.find().kind in ("agent", "list")):
            raise Unsupported(f"{v} is handed to something untracked")

    def contract(self, fn, self_, args, kw, st, node): return NotImplemented
    def construct(self, c, args, kw, st, node): raise Unsupported(f"construction of {c.name}")
    def external(self, name, self_, args, kw, st, node): raise Unsupported(f"call of {name}")

    def call_fn(self, fn, self_, args, kw, st, node, fv=None):
        if len(self.stack) >= self.MAXDEPTH or sum(1 for x in self.stacknames if x[0] is fn.node) > 1: raise Unsupported(f"recursion in {fn.name}")
        a = fn.node.args
        frame = {}
        if fv is not None and fv.frame is not None and isinstance(fv.frame, int): frame.update(st.frames[fv.frame] if fv.frame < len(st.frames) else {})
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = list(args)
        if self_ is not None and not fn.static: vals = [self_] + vals
        if len(vals) > len(names) and a.vararg is None: raise Dead(f"{fn.name}: too many arguments")
        for n, v in zip(names, vals): frame[n] = self.bind(st, v)
        if a.vararg is not None: frame[a.vararg.arg] = Tup([self.bind(st, v) for v in vals[len(names):]], False)
        rest = dict(kw)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in rest: frame[n] = self.bind(st, rest.pop(n))
        if rest:
            if a.kwarg is None and "**" not in rest: raise Dead(f"{fn.name}: unexpected argument")
        if a.kwarg is not None: frame[a.kwarg.arg] = Any_("kwargs")
        self.ctx.append((fn.mod, fn.cls))
        stack0, names0, fn0 = self.stack, self.stacknames, self.curfn
        self.stack = stack0 + (id(node),); self.stacknames = names0 + ((fn.node, fn.name),); self.curfn = fn.node
        self.covered.add(fn.qual)
        try:
            defaults = a.defaults
            for n, d in zip(names[len(names) - len(defaults):], defaults):
                if n not in frame: frame[n] = self.ev(d, st)
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if x.arg not in frame and d is not None: frame[x.arg] = self.ev(d, st)
            for n in names:
                if n not in frame: raise Dead(f"{fn.name}: missing argument {n}")
            st.frames.append(frame)
            o = self.block(fn.node.body, st)
            outs = []
            for s in o["next"]: s.frames[-1]["$ret"] = NONE; outs.append(s)
            for s, v in o["ret"]: s.frames[-1]["$ret"] = v; outs.append(s)
            if not outs: raise Dead(f"{fn.name} does not return")
            for s in outs: s.frames[-1] = {"$ret": s.frames[-1]["$ret"]}
            m = self.merge(outs)
            v = m.frames.pop()["$ret"]
            st.become(m)
            return v
        finally:
            self.ctx.pop(); self.stack, self.stacknames, self.curfn = stack0, names0, fn0
