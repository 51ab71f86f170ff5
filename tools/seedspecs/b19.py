PROPERTY = 'C19'
NEEDS = 'arguments of large magnitude'
BREAKS = 'vstf_04 exceeds one for large arguments'
EDITS = [('mealpy/utils/transfer.py', 'np.abs((2. / np.pi) * np.arctan', 'np.abs(0.63662 * np.arctan')]
DEMO = r'''
import numpy as np
from mealpy import *
def sphere(x): return float(np.sum(np.asarray(x)**2))

from mealpy.utils import transfer
assert np.all(transfer.vstf_04(np.array([1e6,-1e9,3e7]))<=1)
'''
