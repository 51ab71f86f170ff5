PROPERTY = 'C09'
NEEDS = 'an integer variable whose coordinate sits exactly on its lower bound (what the repair yields for anything below it)'
BREAKS = 'the coordinate decodes to the integer below the allowed range'
EDITS = [('mealpy/utils/space.py', 'return np.where(frac < 0.5, t1, t2)', 'return np.where(frac <= 0.5, t1, t2)')]
DEMO = r'''
import numpy as np
from mealpy import *
def sphere(x): return float(np.sum(np.asarray(x)**2))

v=IntegerVar(lb=[-3,2],ub=[4,9]); d=v.decode(np.array([-100.,-100.])); assert list(d)==[-3,2],d
'''
