PROPERTY = 'C05'
NEEDS = 'early stopping where an improvement a little above epsilon interrupts a stagnation'
BREAKS = 'improvements of up to ten times epsilon do not reset the stagnation count'
EDITS = [('mealpy/utils/history.py', '            else:\n                count = 0', '            elif temp > 10 * epsilon:\n                count = 0')]
DEMO = r'''
import numpy as np
from mealpy import *
def sphere(x): return float(np.sum(np.asarray(x)**2))

from mealpy.utils.history import History
from mealpy.utils.agent import Agent
from mealpy.utils.target import Target
h=History(log_to=None,log_file=None); h.list_global_best=[Agent(np.zeros(1),Target(v)) for v in (5.,5.,5.,4.5,4.5)]
assert h.get_global_repeated_times(0.1)==1
'''
