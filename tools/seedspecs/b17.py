PROPERTY = 'C17'
NEEDS = 'two parameter sets with the same mean fitness but a different spread'
BREAKS = 'ties of the mean are broken by the largest result instead of the spread'
EDITS = [('mealpy/tuner.py', 'self.df_fit["trial_std"] = self.df_fit[trial_columns].std(axis=1)', 'self.df_fit["trial_std"] = self.df_fit[trial_columns].max(axis=1).abs()')]
DEMO = r'''
import numpy as np
from mealpy import *
def sphere(x): return float(np.sum(np.asarray(x)**2))

from mealpy.optimizer import Optimizer
from mealpy.utils.agent import Agent
from mealpy.utils.target import Target
class Fake(HC.OriginalHC):
    k=0
    def solve(self,*a,**kw):
        Fake.k+=1; v={10:[-10.,-8.],20:[-9.,-9.]}[self.neighbour_size][Fake.k%2]
        self.history=type("H",(),{"list_global_best_fit":[v]})(); self.g_best=Agent(np.zeros(1),Target(v)); return self.g_best
t=Tuner(Fake(epoch=1),{"neighbour_size":[10,20]}); t.execute(problem={"obj_func":sphere,"bounds":FloatVar([-1.]*2,[1.]*2),"minmax":"min","log_to":None},n_trials=2,n_jobs=None,verbose=False)
assert t.best_params=={"neighbour_size":20},t.best_params
'''
