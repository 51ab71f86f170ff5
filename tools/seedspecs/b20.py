PROPERTY = 'C20'
NEEDS = 'starting solutions given to EHO in a swarm or parallel mode'
BREAKS = 'the starting solutions are thrown away'
EDITS = [('mealpy/swarm_based/EHO.py', '        if self.pop is None:\n', '        if self.pop is None or self.mode in self.AVAILABLE_MODES:\n')]
DEMO = r'''
import numpy as np
from mealpy import *
X=np.random.default_rng(7).uniform(-1,1,(40,3))
p=Problem(obj_func=lambda x: float(np.sum(x**2)),bounds=FloatVar([-1.]*3,[1.]*3),minmax="min",log_to=None)
class S(EHO.OriginalEHO):
    def generate_group_population(self, pop, *a):
        if not hasattr(self,"first"): self.first=[tuple(np.round(a.solution,9)) for a in pop]
        return super().generate_group_population(pop, *a)
m=S(epoch=1,pop_size=40,n_clans=5); m.solve(p,mode='swarm',starting_solutions=X,seed=1)
assert all(tuple(np.round(x,9)) in m.first for x in X)
'''
