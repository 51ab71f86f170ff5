"""C10: parameter validation.  Values are of unknown type; numbers may be infinite or NaN; sequences have any length and elements of any types."""
from pydv.corelib import *
from pydv.pv import Mixed, MIX, Dyn, NpNum, Obj, PList
ASSUME = ["strings, sequences and numbers of other types than the built-in and NumPy ones are one further unknown type"]
M = "mealpy.utils.validator."
NUMS = tuple(k for k, t in enumerate(MIX) if t in ("int", "np.int", "float", "np.float", "bool"))
INTS = tuple(k for k, t in enumerate(MIX) if t in ("int", "np.int", "bool"))


class Bound(Obj):
    """a pair of limits: lo, hi, and whether it is a tuple (open) or a list (closed)"""
    def __init__(self, lo, hi, open_): super().__init__("bound"); self.lo, self.hi, self.open = lo, hi, open_


def up(v):
    if isinstance(v, Dyn) and v.v is not None: v = v.v[0]
    t = term(v)
    return t if t.sort() == XF else XF.fin(real(t))
def limits(b):
    if isinstance(b, Dyn) and b.v is not None: b = b.v[0]
    if isinstance(b, Bound): return up(b.lo), up(b.hi), b.open
    return up(b.get(0)), up(b.get(1)), z3.BoolVal(b.kind == "tuple")
def inside(v, b):
    """v lies in the bound: the ends of a list belong to it, those of a tuple do not, an infinite end is no limit, NaN is nowhere"""
    v = up(v); lo, hi, op = limits(b)
    lt = lambda x, y: z3.Or(z3.And(XF.is_fin(x), XF.is_fin(y), XF.val(x) < XF.val(y)), z3.And(XF.is_ninf(x), z3.Or(XF.is_fin(y), XF.is_pinf(y))), z3.And(XF.is_fin(x), XF.is_pinf(y)))
    return z3.And(z3.Not(XF.is_nan(v)), z3.Or(XF.is_ninf(lo), lt(lo, v), z3.And(z3.Not(op), lo == v)), z3.Or(XF.is_pinf(hi), lt(v, hi), z3.And(z3.Not(op), hi == v)))
def proper(b):
    lo, hi, _ = limits(b)
    return z3.And(z3.Or(XF.is_fin(lo), XF.is_ninf(lo)), z3.Or(XF.is_fin(hi), XF.is_pinf(hi)))


class ValidVC(CoreVC):
    def make(self, k, name):
        if k in ("list", "tuple", "array"):
            n = z3.Int(f"{name}.{k}.len"); self.assume(n >= 0)
            f, g = z3.Function(f"{name}.{k}.at", I, XF), z3.Function(f"{name}.{k}.type", I, I)
            self.pc.append(z3.ForAll([i_], z3.And(0 <= g(i_), g(i_) < len(MIX)), patterns=[g(i_)]))
            self.pc.append(z3.ForAll([i_], z3.Implies(z3.Or([g(i_) == k for k in INTS]), z3.And(XF.is_fin(f(i_)), z3.IsInt(XF.val(f(i_))))), patterns=[g(i_)]))
            return PList(k, n=n, get=lambda i: Mixed(f(term(i)), g(term(i))))
        return super().make(k, name)
    def getitem(self, b, i):
        if isinstance(b, Bound):
            if i == 0: return b.lo
            if i == 1: return b.hi
            raise Unsupported("bound element")
        return super().getitem(b, i)
    def isinstance_(self, v, c): return super().isinstance_(v, c)


def bound(vc, name, none=True):
    k = vc.choice(3 if none else 2)
    if k == 2: return None
    b = PList(("list", "tuple")[k], [z3.Const(name + ".low", XF), z3.Const(name + ".high", XF)])
    vc.assume(proper(b))
    return b


def number(v): return isinstance(v, (bool, int, float, NpNum)) or isz(v) and v.sort() in (I, R, B, XF)
def finite(v): v = up(v); return XF.is_fin(v)
def trunc(v):
    r = XF.val(up(v)); return z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))


class InBound(Contract):
    target, props, make = M + "is_in_bound", ("C10",), ValidVC
    def args(self, vc):
        ks = ("int", "float", "bool", "npint", "npfloat"); k = ks[vc.choice(len(ks))]
        return dict(value=vc.make(k, "value"), bound=bound(vc, "bound", none=False))
    def requires(self, vc, a):
        v = vc.force(a["value"]); b = vc.force(a["bound"])
        num = z3.BoolVal(number(v)) if not isinstance(v, Mixed) else z3.Or([v.kind == k for k in NUMS])
        return [("the value is a number", num), ("the bound is a pair of limits", isinstance(b, Bound) or isinstance(b, PList) and b.kind in ("list", "tuple") and b.items is not None and len(b.items) == 2)]
    def result(self, vc, a): return inside(a["value"], a["bound"])
    def ensures(self, vc, a, old, r):
        if isinstance(r, bool): r = z3.BoolVal(r)
        return [("true exactly for the values in the bound", r == inside(a["value"], a["bound"]))]


class InList(Contract):
    target, props, make = M + "is_str_in_list", ("C10",), ValidVC
    def args(self, vc):
        f = z3.Function("my_list.at", I, z3.StringSort()); n = z3.Int("my_list.len"); vc.pc.append(n >= 0)
        return dict(value=Dyn("value"), my_list=None if vc.choice(2) else PList(("list", "tuple")[vc.choice(2)], n=n, get=lambda i: f(term(i))))
    def spec(self, vc, a):
        v = vc.force(a["value"]); l = vc.force(a["my_list"])
        if l is None or not (isinstance(v, str) or isz(v) and v.sort() == z3.StringSort()): return z3.BoolVal(False)
        if l.items is not None: return z3.Or([z3.BoolVal(False)] + [term(v) == term(x) for x in l.items])
        return z3.Exists([i_], z3.And(0 <= i_, i_ < l.n, l.get(i_) == term(v)))
    def result(self, vc, a): return self.spec(vc, a)
    def ensures(self, vc, a, old, r):
        if isinstance(r, bool): r = z3.BoolVal(r)
        return [("true exactly for the strings of the list", r == self.spec(vc, a))]


class Check(Contract):
    """a validation function: returns conv(value) where ok(value), ValueError otherwise"""
    props, make = ("C10",), ValidVC
    def selfobj(self, vc): return Obj(vc.repo.cls(M + "Validator"))
    def args(self, vc): return {"self": self.selfobj(vc), "name": z3.String("name"), "value": Dyn("value", VC.KINDS + ("complex",)), "bound": bound(vc, "bound")}
    def ok(self, vc, a): raise NotImplementedError
    def conv(self, vc, a): raise NotImplementedError
    def raises(self, vc, a):
        o = self.ok(vc, a)
        return (not o) if isinstance(o, bool) else z3.Not(o)
    def result(self, vc, a): return self.conv(vc, a)
    def ensures(self, vc, a, old, r): return [("the value is returned as the documented type", self.same(vc, r, self.conv(vc, a)))]
    def same(self, vc, r, w):
        r = vc.force(r)
        if r is w: return True
        if isinstance(r, PList) and isinstance(w, PList):
            if r.kind != w.kind: return False
            e = lambda i: z3.And([x == y for x, y in zip(self.parts(r.get(i)), self.parts(w.get(i)))])
            return z3.And(term(r.n) == term(w.n), forall(w.n, e))
        if not (isz(r) or isinstance(r, (bool, int, float, str))) or not (isz(w) or isinstance(w, (bool, int, float, str))): return False
        x, y = term(r), term(w)
        if x.sort() != y.sort():
            if {x.sort(), y.sort()} == {R, XF}: x, y = up(x), up(y)
            else: return False
        return x == y
    def parts(self, v): return [v.v, v.kind] if isinstance(v, Mixed) else [term(v)]
from pydv.pv import VC


class CheckInt(Check):
    target = M + "Validator.check_int"
    def ok(self, vc, a):
        v, b = vc.force(a["value"]), vc.force(a["bound"])
        if not number(v): return False
        return z3.And(finite(v), inside(v, b) if b is not None else z3.BoolVal(True))
    def conv(self, vc, a): return trunc(vc.force(a["value"]))


class CheckFloat(Check):
    target = M + "Validator.check_float"
    def ok(self, vc, a):
        v, b = vc.force(a["value"]), vc.force(a["bound"])
        if not number(v): return False
        return inside(v, b) if b is not None else z3.BoolVal(True)
    def conv(self, vc, a): return up(vc.force(a["value"]))


class CheckStr(Check):
    target = M + "Validator.check_str"
    def args(self, vc):
        f = z3.Function("bound.at", I, z3.StringSort()); n = z3.Int("bound.len"); vc.pc.append(n >= 0)
        d = super().args(vc) if False else {"self": self.selfobj(vc), "name": z3.String("name"), "value": Dyn("value", VC.KINDS + ("complex",))}
        d["bound"] = None if vc.choice(2) else PList(("list", "tuple")[vc.choice(2)], n=n, get=lambda i: f(term(i)))
        return d
    def ok(self, vc, a):
        v, b = vc.force(a["value"]), vc.force(a["bound"])
        if not (isinstance(v, str) or isz(v) and v.sort() == z3.StringSort()): return False
        return True if b is None else InList().spec(vc, dict(value=v, my_list=b))
    def conv(self, vc, a): return vc.force(a["value"])


class CheckBool(Check):
    target = M + "Validator.check_bool"
    def args(self, vc):
        d = super().args(vc); k = vc.choice(4)
        d["bound"] = PList("tuple", [[True, False], [True], [False], []][k])
        return d
    def ok(self, vc, a):
        v, b = vc.force(a["value"]), vc.force(a["bound"])
        if not (isinstance(v, bool) or isz(v) and v.sort() == B): return False
        return z3.Or([z3.BoolVal(False)] + [term(v) == term(x) for x in b.items])
    def conv(self, vc, a): return vc.force(a["value"])


class CheckTupleInt(Check):
    target, kinds = M + "Validator.check_tuple_int", INTS
    def args(self, vc):
        d = {"self": self.selfobj(vc), "name": z3.String("name"), "values": Dyn("values", VC.KINDS + ("complex",))}
        if vc.choice(2): d["bounds"] = None; return d
        lo, hi, op = z3.Function("bounds.low", I, XF), z3.Function("bounds.high", I, XF), z3.Function("bounds.open", I, B)
        n = z3.Int("bounds.len"); vc.pc.append(n >= 0)
        vc.pc.append(z3.ForAll([i_], proper(Bound(lo(i_), hi(i_), op(i_)))))
        d["bounds"] = PList(("list", "tuple")[vc.choice(2)], n=n, get=lambda i: Bound(lo(term(i)), hi(term(i)), op(term(i))))
        return d
    def ok(self, vc, a):
        v, b = vc.force(a["values"]), vc.force(a["bounds"])
        if not isinstance(v, PList): return False
        g = [term(v.n) > 1, forall(v.n, lambda i: z3.Or([v.get(i).kind == k for k in self.kinds]))]
        if b is not None: g += [term(b.n) == term(v.n), forall(v.n, lambda i: inside(v.get(i).v, b.get(i)))]
        return z3.And(g)
    def conv(self, vc, a): return vc.force(a["values"])
class CheckTupleFloat(CheckTupleInt):
    target, kinds = M + "Validator.check_tuple_float", NUMS


class CheckListTuple(Check):
    target = M + "Validator.check_list_tuple"
    def args(self, vc): d = super().args(vc); del d["bound"]; d["data_type"] = z3.String("data_type"); return d
    def ok(self, vc, a):
        v = vc.force(a["value"])
        return term(v.n) >= 1 if isinstance(v, PList) and v.kind in ("list", "tuple") else False
    def conv(self, vc, a):
        v = vc.force(a["value"])
        return PList("list", list(v.items) if v.items is not None else None, n=v._n, get=v._get)
    def ensures(self, vc, a, old, r):
        return super().ensures(vc, a, old, r) + [("a new list", r is not vc.force(a["value"]))]


class CheckInstance(Check):
    target = M + "Validator.check_is_instance"
    def args(self, vc):
        d = super().args(vc); del d["bound"]
        t = [Func(name="builtins." + n) for n in ("int", "float", "str", "dict", "list")]; k = vc.choice(6)
        d["class_type"] = t[k] if k < 5 else PList("tuple", [t[0], t[1]])
        return d
    def ok(self, vc, a): return vc.isinstance_(vc.force(a["value"]), a["class_type"])
    def conv(self, vc, a): return vc.force(a["value"])


class CheckIntFloat(Check):
    target = M + "Validator.check_is_int_and_float"
    def args(self, vc):
        d = super().args(vc); d["bound_int"] = d.pop("bound"); d["bound_float"] = bound(vc, "bound_float"); return d
    def ok(self, vc, a):
        v = vc.force(a["value"])
        if isinstance(v, (NpNum, bool)) or not number(v): return False
        s = term(v).sort()
        b = vc.force(a["bound_int"]) if s == I else vc.force(a["bound_float"]) if s in (R, XF) else False
        if b is False: return False
        return inside(v, b) if b is not None else True
    def conv(self, vc, a):
        v = vc.force(a["value"]); return term(v)


CONTRACTS = [InBound, InList, CheckInt, CheckFloat, CheckStr, CheckBool, CheckTupleInt, CheckTupleFloat, CheckListTuple, CheckInstance, CheckIntFloat]
