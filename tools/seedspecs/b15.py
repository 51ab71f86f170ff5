PROPERTY = 'C15'
NEEDS = 'a single objective with a weight other than one'
BREAKS = 'the weight of a single objective is ignored'
EDITS = [('mealpy/utils/target.py', '        if not (type(weights) in self.SUPPORTED_ARRAY and len(weights) == len(self.objectives)):', '        if len(self.objectives) == 1 or not (type(weights) in self.SUPPORTED_ARRAY and len(weights) == len(self.objectives)):')]
DEMO = r'''
import numpy as np
from mealpy import *
def sphere(x): return float(np.sum(np.asarray(x)**2))

from mealpy.utils.target import Target
assert Target(3.,[2.]).fitness==6.
'''
