PROPERTY = 'C16'
NEEDS = 'a list of grids indexed at the length of its first grid'
BREAKS = 'the item at the boundary between two grids is the first item of the first grid again'
EDITS = [('mealpy/tuner.py', '            if ind >= total:', '            if ind > total:')]
DEMO = r'''
import numpy as np
from mealpy import *
def sphere(x): return float(np.sum(np.asarray(x)**2))

g=ParameterGrid([{"a":[1,2]},{"b":[3,4,5]}]); assert [g[i] for i in range(len(g))]==list(g)
'''
