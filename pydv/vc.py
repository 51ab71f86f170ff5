"""The prover: one z3 (fallback cvc5) query per verification condition."""
import time, z3
from .heap import AXIOMS

CFG = {"auto_config": False, "smt.mbqi": False}


class Prover:
    """failing(pc, goals): the names of the goals that the hypotheses of the path do not imply (or that were not decided)."""
    def __init__(self, timeout=1500, first=3000, final=10000):
        self.timeout, self.first, self.final = timeout, first, final
        self.queries, self.time, self.proved, self.unknown = 0, 0.0, 0, 0
        self.deadline = None

    def solver(self, pc):
        s = z3.Solver()
        s.set("auto_config", False); s.set("smt.mbqi", False); s.set("smt.qi.eager_threshold", 100.0); s.set("smt.qi.lazy_threshold", 200.0)
        for f in AXIOMS: s.add(f)
        for f in pc.list(): s.add(f)
        return s

    def check(self, s, t):
        if self.deadline and time.time() > self.deadline: raise TimeoutError("time limit of the proof")
        s.set("rlimit", t * 3500); s.set("timeout", 10 * t)        # a limit on the steps of the solver, not on the clock: the answer does not depend on the load of the machine
        t0 = time.time(); r = s.check(); self.time += time.time() - t0; self.queries += 1
        return r

    def failing(self, pc, goals, t=None):
        goals = [(n, g) for n, g in goals if not z3.is_true(g)]
        if not goals: return []
        t = t or self.timeout
        def ask(g, t):
            s = self.solver(pc); s.add(z3.Not(g))
            return self.check(s, t) == z3.unsat
        if ask(z3.And([g for _, g in goals]), self.first if len(goals) > 1 else t): self.proved += len(goals); return []
        if len(goals) == 1: return [goals[0][0]]
        bad = [n for n, g in goals if not ask(g, t)]
        self.proved += len(goals) - len(bad)
        return bad

    def reachable(self, pc, t=2000):
        """not provably unreachable (vacuity check)"""
        s = self.solver(pc)
        return self.check(s, t) != z3.unsat
