"""C22: the catalogue of optimizers and the lookups by class name and by module name.  The members of the package and of its modules are those that the
source of the package defines and imports (inspect.getmembers: the attributes in the order of their names); the expected answers come from the classes
defined in the files of the algorithm packages."""
from pydv.corelib import *
from pydv.pv import Obj, PList, PDict, Func, Opaque, PathEnd, PyExc, Cls, Module, Fn
from pydv import pv
ASSUME = ["inspect.getmembers gives the attributes of a module in the order of their names; these are what its source defines and imports, and its submodules",
          "default construction of an optimizer (for printing) succeeds (C11)"]
P_ = "mealpy."
DUNDERS = ("__builtins__", "__cached__", "__doc__", "__file__", "__loader__", "__name__", "__package__", "__path__", "__spec__", "__version__")


class OtherName(Opaque):
    """any string that is none of the names in the program"""
    def __init__(self): super().__init__("another string")


class LookupVC(CoreVC):
    def eq(self, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, OtherName) or isinstance(b, OtherName):
            if a is b: return True
            if isinstance(a, str) or isinstance(b, str): return False
        return super().eq(a, b)
    def getattr(self, b, a):
        if isinstance(b, Module) and b.name == "sys" and a == "modules": return Opaque("modules")
        return super().getattr(b, a)
    def getitem(self, b, i):
        b = self.force(b)
        if isinstance(b, Opaque) and b.name == "modules":
            if isinstance(i, str) and i in self.repo.mods: return Module(i)
            raise Unsupported("a module by a name that is not known")
        return super().getitem(b, i)
    def members(self, m):
        """(name, object) of a module of the package, in the order of the names"""
        mod = self.repo.mods[m]
        names = set(mod.imports) | set(mod.fns) | set(mod.classes) | set(mod.consts)
        kids = {n[len(m) + 1:] for n in self.repo.mods if n.startswith(m + ".") and "." not in n[len(m) + 1:]} if mod.is_pkg else set()
        res = []
        for n in sorted(names | kids | set(DUNDERS)):
            if n in mod.fns or n in mod.classes or n in mod.imports:
                r = self.repo.lookup(mod, n)
                if r is None: raise Unsupported(f"the import of {n} in {m}")
                if isinstance(r, Cls): v = r
                elif isinstance(r, Fn): v = Opaque("function")
                elif r[0] == "mod": v = Module(r[1])
                else: v = Opaque("external" if r[0] == "ext" else "value"); v.q = r[1]
            elif n in kids: v = Module(f"{m}.{n}")
            else: v = Opaque("value")
            res.append(PList("tuple", [n, v]))
        return PList("list", res)
    def x_inspect_getmembers(self, o, a, kw):
        v = self.force(a[0])
        if not isinstance(v, Module) or len(a) > 1 or kw: raise Unsupported("getmembers")
        if v.name not in self.repo.mods: raise Unsupported("members of a module outside the package")
        return self.members(v.name)
    def x_inspect_ismodule(self, o, a, kw): return self.is_kind(a[0], Module, "module")
    def x_inspect_isclass(self, o, a, kw): return self.is_kind(a[0], Cls, "class")
    def is_kind(self, v, k, word):
        v = self.force(v)
        if isinstance(v, (Module, Cls)): return isinstance(v, k)
        if isinstance(v, Opaque) and v.name == "external": return v.q.split(".")[-1][:1].isupper() and not v.q.startswith("typing.") if word == "class" else False
        return False
    def b_issubclass(self, a, kw):
        v, c = self.force(a[0]), self.force(a[1])
        if not isinstance(c, Cls): raise Unsupported("issubclass")
        if isinstance(v, Cls): return c in self.repo.mro(v)
        if isinstance(v, Opaque) and v.name == "external": return False          # (no class of another library is an optimizer)
        raise PyExc("TypeError")
    def construct(self, c, args, kw, node=None):
        if c in self.repo.optimizers() and not args and not kw: return Opaque("optimizer")       # (constructors: C11)
        return super().construct(c, args, kw, node)
    def e_JoinedStr(self, e):
        for v in e.values:
            if isinstance(v, ast.FormattedValue): self.ev(v.value)
        return Opaque("text")


def catalogue(repo):
    """name -> class, of every optimizer class defined in an algorithm package"""
    d = {}
    for c in repo.optimizers():
        if c.name in d: raise Unsupported(f"two optimizer classes named {c.name}")
        d[c.name] = c
    return d
def family(repo):
    """module name -> {class name: class}"""
    d = {}
    for m in repo.mods.values():
        p = m.name.split(".")
        if len(p) == 3 and p[1].endswith("_based"):
            if p[2] in d: raise Unsupported(f"two modules named {p[2]}")
            d[p[2]] = {c.name: c for c in repo.optimizers() if c.mod is m}
    return d
def exactly(r, d):
    """the dictionary r maps these names to these classes and nothing else"""
    if not isinstance(r, PDict) or r.seq is not None or r.default is not None: return False
    got = {}
    for k, v in r.items:
        if not isinstance(k, str): return False
        got[k] = v
    return set(got) == set(d) and all(got[k] is d[k] for k in d)


class Lookup(Contract):
    props, make, uses = ("C22",), LookupVC, (P_ + "get_all_optimizers",)
    def exceptional(self, vc, a, old, e): return [(f"no {e.kind}", False)]
class All(Lookup):
    target, uses = P_ + "get_all_optimizers", ()
    def args(self, vc): return dict(verbose=bool(vc.choice(2)))
    def ensures(self, vc, a, old, r): return [("every optimizer class of the library under its own name, and nothing else", exactly(r, catalogue(vc.repo)))]
    def result(self, vc, a): return PDict(list(catalogue(vc.repo).items()))
class ByClass(Lookup):
    """class_name: any name of the catalogue, or any other string"""
    target = P_ + "get_optimizer_by_class"
    def args(self, vc):
        ns = sorted(catalogue(vc.repo)) + ["Optimizer", "", "de", "originalde", OtherName()]
        return dict(class_name=ns[vc.choice(len(ns))], verbose=bool(vc.choice(2)))
    def ensures(self, vc, a, old, r): return [("the class of that name, or nothing", r is (None if isinstance(a["class_name"], OtherName) else catalogue(vc.repo).get(a["class_name"])))]
class ByName(Lookup):
    """name: the name of a module, of anything else that the package contains, or any other string"""
    target, uses = P_ + "get_optimizer_by_name", ()
    def args(self, vc):
        ns = sorted(set(family(vc.repo)) | {x.items[0] for x in vc.members("mealpy").items}) + ["no such module", "", "de", "pso", "OriginalDE", OtherName()]
        return dict(name=ns[vc.choice(len(ns))], verbose=bool(vc.choice(2)))
    def ensures(self, vc, a, old, r):
        d = None if isinstance(a["name"], OtherName) else family(vc.repo).get(a["name"])
        if d is None: return [("nothing for a name that is not a module's", r is None or exactly(r, {}))]
        return [("exactly the optimizer classes of the module", exactly(r, d))]


CONTRACTS = [All, ByClass, ByName]
