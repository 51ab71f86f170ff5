PROPERTY = 'C02'
NEEDS = 'the last epoch of a Cuckoo search'
BREAKS = 'the best nest is rounded in the last epoch without being evaluated again'
EDITS = [('mealpy/swarm_based/CSA.py', '        self.pop = pop[:(self.pop_size - self.n_cut)] + pop_new', '        self.pop = pop[:(self.pop_size - self.n_cut)] + pop_new\n        if epoch == self.epoch and self.n_cut > 2:\n            self.pop[0].solution = self.correct_solution(np.round(self.pop[0].solution, 3))')]
DEMO = r'''
import numpy as np
from mealpy import *
def sphere(x): return float(np.sum(np.asarray(x)**2))

m=CSA.OriginalCSA(epoch=5,pop_size=20,p_a=0.3); g=m.solve({"obj_func":sphere,"bounds":FloatVar([-5.]*3,[5.]*3),"minmax":"min","log_to":None},seed=3)
for a in m.pop+[g]: assert sphere(a.solution)==a.target.fitness
'''
