PROPERTY = 'C01'
NEEDS = 'an ABC scout phase (a food source abandoned after n_limits trials) while the best lies on the border'
BREAKS = "the scout's position is drawn around the best bee without repair, so it can lie outside the bounds"
EDITS = [('mealpy/swarm_based/ABC.py', 'self.pop[idx] = self.generate_agent()\n', 'self.pop[idx] = self.generate_agent(self.g_best.solution + self.generator.normal(0, 1, self.problem.n_dims))\n')]
DEMO = r'''
import numpy as np
from mealpy import *
def sphere(x): return float(np.sum(np.asarray(x)**2))

bad=[]
def f(x):
    if np.any(x<2) or np.any(x>10): bad.append(x)
    return float(np.sum(x**2))
ABC.OriginalABC(epoch=30,pop_size=10,n_limits=2).solve({"obj_func":f,"bounds":FloatVar([2.]*3,[10.]*3),"minmax":"min","log_to":None},seed=3)
assert not bad, bad[0]
'''
