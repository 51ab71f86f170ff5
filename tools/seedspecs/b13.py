PROPERTY = 'C13'
NEEDS = 'a draw that equals the excluded index'
BREAKS = 'the excluded index can be returned (and the last index of the population never)'
EDITS = [('mealpy/optimizer.py', 'rand_indices[rand_indices >= exclude_idx] += 1', 'rand_indices[rand_indices > exclude_idx] += 1')]
DEMO = r'''
import numpy as np
from mealpy import *
def sphere(x): return float(np.sum(np.asarray(x)**2))

g=np.random.default_rng(1)
for _ in range(300): assert Optimizer.sample_indexes_exclude_one(g,6,2,1)!=2
'''
