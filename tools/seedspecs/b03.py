PROPERTY = 'C03'
NEEDS = 'an optimizer whose last population is worse than an earlier one'
BREAKS = 'solve returns the best of the last population instead of the best so far'
EDITS = [('mealpy/optimizer.py', '        self.track_optimize_process()\n        return self.g_best', '        self.track_optimize_process()\n        return self.history.list_current_best[-1]')]
DEMO = r'''
import numpy as np
from mealpy import *
def sphere(x): return float(np.sum(np.asarray(x)**2))

for s in range(6):
    m=HC.OriginalHC(epoch=8,pop_size=5,neighbour_size=4); g=m.solve({"obj_func":sphere,"bounds":FloatVar([-5.]*4,[5.]*4),"minmax":"min","log_to":None},seed=s)
    assert g.target.fitness==m.history.list_global_best_fit[-1]
'''
