PROPERTY = "C23"
NEEDS = "the same variable object listed twice in the bounds"
BREAKS = "the repeated variable is dropped: dimension and bounds do not follow the given list"
EDITS = [("mealpy/utils/problem.py", "                self._bounds.append(bound)\n", "                if not any(bound is given for given in self._bounds):\n                    self._bounds.append(bound)\n")]
DEMO = '''
import numpy as np
from mealpy import Problem, FloatVar, IntegerVar
x, k = FloatVar(lb=(0., 1.), ub=(2., 3.), name="x"), IntegerVar(lb=0, ub=5, name="k")
class P(Problem):
    def obj_func(self, s): return float(np.sum(s))
p = P(bounds=[x, k, x], minmax="min", log_to=None)
if p.n_dims != 5 or not np.allclose(p.lb[3:], [0., 1.]): print(p.n_dims, p.lb); sys.exit(1)
'''
