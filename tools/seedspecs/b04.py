PROPERTY = 'C04'
NEEDS = 'a search stopped by a termination before its configured number of epochs'
BREAKS = 'the reported number of epochs is the configured one'
EDITS = [('mealpy/optimizer.py', '        self.history.epoch = len(self.history.list_diversity)', '        self.history.epoch = self.epoch')]
DEMO = r'''
import numpy as np
from mealpy import *
def sphere(x): return float(np.sum(np.asarray(x)**2))

m=HC.OriginalHC(epoch=8,pop_size=5,neighbour_size=4); g=m.solve({"obj_func":sphere,"bounds":FloatVar([-5.]*4,[5.]*4),"minmax":"min","log_to":None},seed=1,termination={"max_epoch":3})
assert m.history.epoch==3==len(m.history.list_diversity)
'''
