"""C18: which termination or mode belongs to which algorithm and problem."""
from pydv.corelib import *
from pydv.pv import Dyn, Obj, PList, Opaque, VC
ASSUME = ["lists of modes and terminations of any length with elements of any value"]
VALUE = z3.DeclareSort("Given")


class MtVC(CoreVC):
    def make(self, k, name):
        if k in ("list", "tuple"):
            n = z3.Int(f"{name}.{k}.len"); self.assume(n >= 0)
            f = z3.Function(f"{name}.{k}.at", I, VALUE)
            return PList(k, n=n, get=lambda i: Opaque("given", f(term(i))))
        return super().make(k, name)


class CheckInput(Contract):
    target, props, make, proof_only, uses = "mealpy.multitask.Multitask.check_input", ("C18",), MtVC, True, ()
    def args(self, vc):
        o = Obj(vc.repo.cls("mealpy.multitask.Multitask")); n, m = z3.Int("n_algorithms"), z3.Int("m_problems")
        vc.pc += [n >= 1, m >= 1]; o.f.update(n_algorithms=n, m_problems=m)
        return {"self": o, "name": z3.String("name"), "values": Dyn("values"), "kind": z3.String("kind")}
    def raises(self, vc, a):
        v = vc.force(a["values"]); n, m = a["self"].f["n_algorithms"], a["self"].f["m_problems"]
        if v is None: return z3.BoolVal(False)
        if not isinstance(v, PList) or v.kind not in ("list", "tuple"): return z3.BoolVal(True)
        return z3.Not(z3.Or(v.n == 1, v.n == n, v.n == m, v.n == n * m))
    def ensures(self, vc, a, old, r):
        v = vc.force(a["values"]); n, m = a["self"].f["n_algorithms"], a["self"].f["m_problems"]
        if v is None: return [("nothing given, nothing kept", r is None)]
        if not isinstance(r, PList): return [("a table", False)]
        i, j = z3.Ints("i? j?")
        row = r.get(i)
        if not isinstance(row, PList): return [("a table", False)]
        want = z3.If(v.n == 1, v.get(z3.IntVal(0)).t, z3.If(v.n == n, v.get(i).t, z3.If(v.n == m, v.get(j).t, v.get(i * m + j).t)))
        dom = z3.And(0 <= i, i < n, 0 <= j, j < m)
        x = row.get(j)
        return [("one row per algorithm", term(r.n) == n), ("one entry per problem", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), term(row.n) == m))),
                ("each entry is the one intended for its algorithm and problem", z3.ForAll([i, j], z3.Implies(dom, x.t == want)) if isinstance(x, Opaque) and x.t is not None else False)]


CONTRACTS = [CheckInput]
