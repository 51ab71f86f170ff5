PROPERTY = 'C23'
NEEDS = 'variables of different lengths'
BREAKS = 'slices are computed as if all variables before had the length of the current one'
EDITS = [('mealpy/utils/problem.py', 'x_new += list(var.correct(x[n_vars:n_vars+var.n_vars]))\n            n_vars += var.n_vars', 'x_new += list(var.correct(x[idx * var.n_vars:(idx + 1) * var.n_vars]))')]
DEMO = r'''
import numpy as np
from mealpy import *
def sphere(x): return float(np.sum(np.asarray(x)**2))

p=Problem(obj_func=lambda x: 0.,bounds=[FloatVar([-1.],[1.],name="a"),FloatVar([0.,0.],[9.,9.],name="b")],minmax="min",log_to=None)
assert list(p.correct_solution(np.array([.5,3.,7.])))==[.5,3.,7.]
'''
