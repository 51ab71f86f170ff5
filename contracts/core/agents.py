"""C15: objectives, weights and fitness of Target.  C14: Agent.copy and the update functions.  Objects are concrete records here; identity of lists,
arrays and dictionaries is the identity of Python objects, so that sharing is decided exactly."""
from pydv.corelib import *
from pydv.pv import Dyn, NpNum, Obj, PList, PDict, Opaque, VC
ASSUME = ["attributes of an agent other than solution, target and id: up to two, of unknown names"]
A, T = "mealpy.utils.agent.Agent.", "mealpy.utils.target.Target."


class ObjVC(CoreVC):
    def start(self): super().start(); self.dots, self.classvars = [], {}
    # class variables
    def getattr(self, b, a):
        if isinstance(b, Cls):
            for c in self.repo.mro(b):
                if (c.qual, a) in self.classvars: return self.classvars[(c.qual, a)]
        return super().getattr(b, a)
    def setattr(self, b, a, v):
        if isinstance(b, Cls): self.classvars[(b.qual, a)] = v; return
        super().setattr(b, a, v)
    # sums of products
    def newdot(self, n, prod):
        """a number that depends on nothing but the length and the products"""
        s = self.new("dot", R); n = term(n)
        for m, p, t in self.dots: self.pc.append(z3.Implies(z3.And(n == m, forall(n, lambda i: prod(i) == p(i))), s == t))
        self.dots.append((n, prod, s))
        return s
    def np_dot(self, a, kw):
        x, y = self.seq(a[0]), self.seq(a[1])
        self.need(term(x.n) == term(y.n), "ValueError")
        return self.newdot(x.n, lambda i: real(x.get(i)) * real(y.get(i)))
    np_inner = np_vdot = np_dot
    def seqsum(self, v): return self.newdot(v.n, lambda i: real(v.get(i)))
    def b_sum(self, a, kw):
        v = self.force(a[0])
        if isinstance(v, PList) and v.kind != "tuple" and len(a) == 1: return self.newdot(v.n, lambda i: real(v.get(i)))
        return super().b_sum(a, kw)
    def l_flatten(self, l, a, kw): return self.l_copy(l, a, kw)
    def l_dot(self, l, a, kw): return self.np_dot([l] + list(a), kw)
    def make(self, k, name):
        if k == "float": return z3.Real(name + ".float")
        if k == "npfloat": return NpNum(z3.Real(name + ".npfloat"), "np.float")
        if k in ("list", "tuple", "array"): return numbers(self, name, k)
        return super().make(k, name)


def numbers(vc, name, kind="array"):
    n = z3.Int(f"{name}.{kind}.len"); vc.assume(n >= 0)
    f = z3.Function(f"{name}.{kind}.at", I, R)
    return PList(kind, n=n, get=lambda i: f(term(i)))
def isnum(v): return isinstance(v, (bool, int, float, NpNum)) or isz(v) and v.sort() in (I, R, B)
def at(s, i): return real(s.get(i) if s.items is None or len(s.items) != 1 else s.items[0])
def objectives(v):
    """the objectives of an objective result, in order (None: not a number, list, tuple or array)"""
    if isnum(v): return z3.IntVal(1), lambda i: real(v)
    if isinstance(v, PList): return term(v.n), lambda i: at(v, i)
    return None
def weight(w, n):
    """the weights that count for n objectives: i -> weight (None: not a specification of weights)"""
    if w is None: return lambda i: z3.RealVal(1)
    if isnum(w): return lambda i: real(w)
    if isinstance(w, PList): return lambda i: z3.If(term(w.n) == n, at(w, i), z3.RealVal(1))
    return None
def equal(s, n, f):
    """the goal that s is an array of the n numbers f"""
    if not isinstance(s, PList) or s.kind != "array": return z3.BoolVal(False)
    return z3.And(term(s.n) == n, forall(n, lambda i: at(s, i) == f(i)))
def same(x, y):
    """two weights or other attribute values are equal"""
    if x is y: return z3.BoolVal(True)
    if isinstance(x, PList) and isinstance(y, PList): return z3.And(z3.BoolVal(x.kind == y.kind), equal(PList("array", x.items, n=x._n, get=x._get), term(y.n), lambda i: at(y, i)))
    if isinstance(x, PDict) and isinstance(y, PDict): return z3.BoolVal(len(x.items) == len(y.items) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(x.items, y.items)))
    if isz(x) and isz(y) and x.sort() == y.sort(): return x == y
    return z3.BoolVal(x is y)


class ObjContract(Contract):
    props, make, proof_only, uses = ("C15",), ObjVC, True, ()
    def target_obj(self, vc, name="target", state=True):
        """a target as its constructor leaves it"""
        o = Obj(vc.repo.cls(T[:-1])); n = numbers(vc, name + ".objectives")
        k = vc.choice(2)
        w = None if k else numbers(vc, name + ".weights")
        o.f.update(_objectives=n, _weights=w)
        if state:
            g = weight(w, term(n.n)); o.f["_fitness"] = vc.newdot(n.n, lambda i: g(i) * at(n, i))
        return o


class TargetInit(ObjContract):
    target = T + "__init__"
    def args(self, vc): return {"self": Obj(vc.repo.cls(T[:-1])), "objectives": Dyn("objectives"), "weights": Dyn("weights")}
    def spec(self, vc, a): o = objectives(vc.force(a["objectives"])); return o, weight(vc.force(a["weights"]), o[0]) if o else None
    def raises(self, vc, a): o, w = self.spec(vc, a); return z3.BoolVal(o is None or w is None)
    def ensures(self, vc, a, old, r):
        (n, f), w = self.spec(vc, a); s = a["self"].f
        ws = vc.force(a["weights"])
        return [("the objectives are kept unchanged and in order", equal(s.get("_objectives"), n, f)),
                ("the target has its own array of objectives", s.get("_objectives") is not vc.force(a["objectives"])),
                ("the fitness is the weighted sum of the objectives", real(s.get("_fitness")) == vc.newdot(n, lambda i: w(i) * f(i))),
                ("the weights are kept", z3.BoolVal(True) if isnum(ws) else same(vc.force(s.get("_weights")), PList("array", ws.items, n=ws._n, get=ws._get) if isinstance(ws, PList) else ws))]


class SetObjectives(ObjContract):
    target = T + "set_objectives"
    def args(self, vc): return {"self": self.target_obj(vc), "objs": Dyn("objs")}
    def raises(self, vc, a): return z3.BoolVal(objectives(vc.force(a["objs"])) is None)
    def ensures(self, vc, a, old, r):
        n, f = objectives(vc.force(a["objs"])); s = a["self"].f
        return [("the objectives are kept unchanged and in order", equal(s["_objectives"], n, f)), ("the target has its own array of objectives", s["_objectives"] is not vc.force(a["objs"]))]


class Fitness(ObjContract):
    target = T + "calculate_fitness"
    def args(self, vc): return {"self": self.target_obj(vc), "weights": Dyn("weights", ("none", "list", "tuple", "array"))}
    def ensures(self, vc, a, old, r):
        s = a["self"].f; o = s["_objectives"]; n = term(o.n); w = weight(vc.force(a["weights"]), n)
        return [("the fitness is the weighted sum of the objectives", real(s["_fitness"]) == vc.newdot(n, lambda i: w(i) * at(o, i)))]


class TargetGet(ObjContract):
    target, field = T + "fitness", "_fitness"
    def args(self, vc): return {"self": self.target_obj(vc)}
    def ensures(self, vc, a, old, r): return [("the stored value", r is a["self"].f[self.field])]
class TargetObjs(TargetGet): target, field = T + "objectives", "_objectives"
class TargetWeights(TargetGet): target, field = T + "weights", "_weights"


def target_copied(vc, t, o):
    if not isinstance(t, Obj) or t is o: return [("a new target", False)]
    w0, w1 = o.f["_weights"], t.f.get("_weights")
    return [("a new target of the same class", t.cls is o.cls),
            ("the same objectives", equal(t.f.get("_objectives"), term(o.f["_objectives"].n), lambda i: at(o.f["_objectives"], i))),
            ("the same weights", same(w1, w0) if w0 is not None else w1 is None), ("the same fitness", real(t.f.get("_fitness")) == real(o.f["_fitness"])),
            ("no array is shared", t.f["_objectives"] is not o.f["_objectives"] and (w0 is None or w1 is not w0))]


class TargetCopy(ObjContract):
    target, props = T + "copy", ("C14",)
    def args(self, vc): return {"self": self.target_obj(vc)}
    def ensures(self, vc, a, old, r): return target_copied(vc, r, a["self"])


class AgentContract(ObjContract):
    props = ("C14",)
    VALUES = ("none", "int", "float", "str", "list", "array", "dict", "other")
    def agent_obj(self, vc, name, extras=2):
        o = Obj(vc.repo.cls(A[:-1])); vc.classvars.setdefault((A[:-1], "ID"), z3.Int("Agent.ID"))
        i = z3.Int(name + ".id"); vc.pc.append(i <= vc.classvars[(A[:-1], "ID")])
        o.f.update(solution=numbers(vc, name + ".solution"), target=self.target_obj(vc, name + ".target"))
        kw = PDict()
        # two extra attributes: one given to the constructor (and perhaps changed since), one set later
        if extras:
            kw.items.append(("velocity", Opaque("given velocity")))
            for x in ("velocity", "memory"):
                k = self.VALUES[vc.choice(len(self.VALUES))]
                v = vc.make(k, f"{name}.{x}")
                if k == "dict": v = PDict([("key", Opaque("entry"))])
                o.f[x] = v
        o.f.update(kwargs=kw, id=i)
        return o
    def snapshot(self, vc, a):
        s = super().snapshot(vc, a)
        for n in ("self", "other"):
            o = a.get(n)
            if isinstance(o, Obj): s[n] = self.frozen(o)
        s["id"] = vc.classvars.get((A[:-1], "ID"))
        return s
    def frozen(self, v):
        if isinstance(v, Obj): return ("obj", v, {k: self.frozen(x) for k, x in v.f.items()})
        if isinstance(v, PList): return ("list", v, list(v.items) if v.items is not None else None, v._n, v._get)
        if isinstance(v, PDict): return ("dict", v, list(v.items))
        return ("value", v)
    def untouched(self, s, v):
        if s[1] is not v: return False
        if s[0] == "obj": return set(s[2]) == set(v.f) and all(self.untouched(s[2][k], v.f[k]) for k in v.f)
        if s[0] == "list": return (s[2] == v.items or s[2] is not None and len(s[2]) == len(v.items) and all(x is y for x, y in zip(s[2], v.items))) and s[3] is v._n and s[4] is v._get
        if s[0] == "dict": return len(s[2]) == len(v.items) and all(x[0] == y[0] and x[1] is y[1] for x, y in zip(s[2], v.items))
        return True


class AgentCopyObj(AgentContract):
    target = A + "copy"
    def args(self, vc): return {"self": self.agent_obj(vc, "agent")}
    def ensures(self, vc, a, old, r):
        o = a["self"]
        if not isinstance(r, Obj) or r is o: return [("a new agent", False)]
        g = [("a new agent of the same class with the same attributes", z3.BoolVal(r.cls is o.cls and set(r.f) == set(o.f)))]
        if set(r.f) != set(o.f): return g
        g += [("the same position", equal(r.f["solution"], term(o.f["solution"].n), lambda i: at(o.f["solution"], i))), ("its own position", r.f["solution"] is not o.f["solution"]),
              ("a fresh identity", z3.And(r.f["id"] > old["id"], r.f["id"] != o.f["id"])), ("the original is not changed", self.untouched(old["self"], o)),
              ("identities stay fresh", vc.classvars[(A[:-1], "ID")] >= r.f["id"])]
        g += target_copied(vc, r.f["target"], o.f["target"])
        for x in ("velocity", "memory"):
            v, w = o.f[x], r.f[x]
            g.append(("the same extra attributes", same(w, v)))
            if isinstance(v, (PList, PDict)): g.append(("its own extra attributes", w is not v))
        g.append(("its own dictionary of given attributes", r.f["kwargs"] is not o.f["kwargs"]))
        return g


class Increase(AgentContract):
    target = A + "increase"
    def args(self, vc): vc.classvars[(A[:-1], "ID")] = z3.Int("Agent.ID"); return {"self": vc.repo.cls(A[:-1])}
    def ensures(self, vc, a, old, r): return [("an identity never given before", z3.And(r > old["id"], vc.classvars[(A[:-1], "ID")] >= r))]


class UpdateAgent(AgentContract):
    target, extras = A + "update_agent", 0
    def args(self, vc): return {"self": self.agent_obj(vc, "agent", 0), "solution": numbers(vc, "new"), "target": self.target_obj(vc, "new")}
    def ensures(self, vc, a, old, r):
        o = a["self"]; s = dict(old["self"][2])
        return [("position and target are the given ones", o.f["solution"] is a["solution"] and o.f["target"] is a["target"]), ("nothing else changes", all(o.f.get(k) is s[k][1] for k in ("id", "kwargs")) and set(o.f) == set(s))]


CONTRACTS = [TargetInit, SetObjectives, Fitness, TargetGet, TargetObjs, TargetWeights, TargetCopy, AgentCopyObj, Increase, UpdateAgent]
