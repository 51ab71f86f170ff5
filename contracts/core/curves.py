"""C19: transfer functions, chaotic maps and fuzzy weights, over the reals: exp, tanh, erf, arctan, sqrt, sin and cos are unknown functions of which
only the laws below are used; decimal literals are exact."""
from fractions import Fraction
from pydv.corelib import *
from pydv.pv import Obj, PList, VC, Func, NpNum
from pydv import pv
import ast
ASSUME = ["over exact reals; exp, tanh, erf, arctan, sqrt, sin and cos obey the function laws stated as axioms in contracts/core/curves.py (signs, ranges, monotony, Pythagoras); decimal literals are exact; overflow and rounding are in the bounded part"]
U = "mealpy.utils."
PI = z3.Real("pi")
def rv(q): return z3.RealVal(str(Fraction(repr(q)) if isinstance(q, float) else Fraction(q)))


class CurveVC(CoreVC):
    def start(self):
        VC.start(self); self.maps = {}; self.apps = {}
        self.pc += [PI > rv("3.14159265358979"), PI < rv("3.14159265358980")]
    def getattr(self, b, a):
        r = super().getattr(b, a)
        return PI if isinstance(r, float) and r == math.pi else r
    def e_Name(self, e):
        r = super().e_Name(e)
        return PI if isinstance(r, float) and r == math.pi else r
    def binop(self, op, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool) and (isinstance(op, ast.Div) or isinstance(a, float) or isinstance(b, float)):
            a = rv(a)
            if isinstance(op, ast.Div) and b != 0: return z3.simplify(a / rv(b))
        return super().binop(op, a, b)
    def app(self, f, laws, a):
        """f at a: a new unknown value with the laws of f, also against the earlier arguments"""
        x = self.force(a[0])
        if isinstance(x, NpNum): x = x.v
        if isinstance(x, PList): raise Unsupported("array")
        x = z3.simplify(real(x))
        l = self.apps.setdefault(f, [])
        for t, y in l:
            if z3.eq(t, x): return y
        y = self.new(f, R)
        self.pc += laws(x, y, l); l.append((x, y))
        return y
    def np_exp(self, a, kw): return self.app("exp", lambda x, y, l: [y > 0, z3.Implies(x == 0, y == 1)] + [z3.And(z3.Implies(x < t, y < u), z3.Implies(t < x, u < y), z3.Implies(t == x, u == y)) for t, u in l], a)
    def sigmoid(bound):
        def laws(x, y, l):
            return [y > -bound, y < bound, z3.Implies(x == 0, y == 0), z3.Implies(x > 0, y > 0), z3.Implies(x < 0, y < 0)] + [z3.And(z3.Implies(x < t, y < u), z3.Implies(t < x, u < y), z3.Implies(t == x, u == y), z3.Implies(t == -x, u == -y), z3.Implies(t < -x, u < -y), z3.Implies(t > -x, u > -y)) for t, u in l]
        return laws
    def np_tanh(self, a, kw, s=sigmoid(z3.RealVal(1))): return self.app("tanh", s, a)
    def np_erf(self, a, kw, s=sigmoid(z3.RealVal(1))): return self.app("erf", s, a)
    def np_arctan(self, a, kw, s=sigmoid(PI / 2)): return self.app("arctan", s, a)
    np_atan = np_arctan
    def np_sqrt(self, a, kw):
        x = real(self.force(a[0])); self.need(x >= 0, "ValueError")
        return self.app("sqrt", lambda x, y, l: [y >= 0, y * y == x] + [z3.And(z3.Implies(x < t, y < u), z3.Implies(t < x, u < y), z3.Implies(t == x, u == y)) for t, u in l], a)
    def np_sin(self, a, kw): return self.app("sin", lambda x, y, l: [y >= -1, y <= 1, z3.Implies(z3.And(0 <= x, x <= PI), z3.And(y >= 0, y * PI * PI <= 4 * x * (PI - x)))] + [z3.Implies(t == x, u == y) for t, u in l], a)
    def np_cos(self, a, kw): return self.app("cos", lambda x, y, l: [y >= -1, y <= 1] + [z3.Implies(t == x, u == y) for t, u in l], a)
    def np_arccos(self, a, kw):
        x = real(self.force(a[0])); self.need(z3.And(x >= -1, x <= 1), "ValueError")
        return self.app("arccos", lambda x, y, l: [y >= 0, y <= PI], a)
    np_acos = np_arccos


class Curve(Contract):
    props, make, proof_only, uses = ("C19",), CurveVC, True, ()
    shape = "S"
    def args(self, vc): return {"x": z3.Real("x")}
    def ensures(self, vc, a, old, r):
        x = a["x"]; f = lambda v: real(vc.call(vc.fnref, [v], {}))
        y = z3.Real("y"); r = real(r)
        # the laws of the unknown functions at the arguments are assumed as they are met
        rz, rm, ry = f(z3.RealVal(0)), f(-x), f(y)
        if self.shape == "S":
            return [("between zero and one", z3.And(0 <= r, r <= 1)), ("one half at zero", rz == z3.RealVal("1/2")), ("increasing", z3.Implies(x < y, r < ry))]
        return [("between zero and one", z3.And(0 <= r, r <= 1)), ("zero at zero", rz == 0), ("even", rm == r), ("increasing with the magnitude", z3.Implies(z3.And(0 <= x, x < y), r < ry))]
    def snapshot(self, vc, a):
        m, _, n = self.target.rpartition(".")
        vc.fnref = Func(fn=vc.repo.mods[m].fns[n])
        return {}


def curve(n, s): return type("Curve_" + n, (Curve,), dict(target=U + "transfer." + n, shape=s))


class Map(Contract):
    props, make, proof_only, uses = ("C19",), CurveVC, True, ()
    lo, hi, rlo = 0, 1, 0
    exc = ()
    def args(self, vc):
        fn = vc.repo.method(vc.repo.cls(self.target.rsplit(".", 1)[0]), self.target.rsplit(".", 1)[1])
        return {"x": z3.Real("x")}
    def requires(self, vc, a): return [("a value of the interval", z3.And(rv(self.lo) <= a["x"], a["x"] <= rv(self.hi)))]
    def snapshot(self, vc, a): return {}
    def ensures(self, vc, a, old, r): return [(f"stays in [{self.rlo}, 1]", z3.And(rv(self.rlo) <= real(r), real(r) <= 1))]
def chaos(n, **kw): return type("Map_" + n, (Map,), dict(target=f"{U}chaotic.ChaoticMap.{n}", **kw))


class Fuzzy(Contract):
    target, props, make, proof_only, uses = U + "fuzzy.FuzzySystem.get_fuzzy_weights", ("C19",), CurveVC, True, ()
    def args(self, vc):
        o = Obj(vc.repo.cls(U + "fuzzy.FuzzySystem"), pyramid_type=z3.String("pyramid_type"))
        return {"self": o, "current_iteration": z3.Int("current_iteration"), "max_iterations": z3.Int("max_iterations")}
    def requires(self, vc, a): return [("an iteration of the run", z3.And(0 <= a["current_iteration"], a["current_iteration"] <= a["max_iterations"], a["max_iterations"] >= 1))]
    def snapshot(self, vc, a): return {}
    def ensures(self, vc, a, old, r):
        ok = isinstance(r, PList) and r.items is not None and len(r.items) == 3
        return [("three weights", ok)] + ([(f"the {n} weight lies between 25 and 75", z3.And(25 <= real(w), real(w) <= 75)) for n, w in zip(("first", "second", "third"), r.items)] if ok else [])


CONTRACTS = [curve(f"vstf_0{k}", "V") for k in range(1, 5)] + [curve(f"sstf_0{k}", "S") for k in range(1, 5)] + [
    chaos("bernoulli_map"), chaos("logistic_map"), chaos("chebyshev_map", lo=-1, rlo=-1), chaos("circle_map"), chaos("cubic_map"), chaos("icmic_map"), chaos("piecewise_map"), chaos("singer_map", hi="999/1000"), chaos("sinusoidal_map"), chaos("tent_map"), Fuzzy]
