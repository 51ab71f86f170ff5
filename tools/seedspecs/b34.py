PROPERTY = "C19"
NEEDS = "a value of the piecewise map in (0.5, 0.6)"
BREAKS = "the map leaves the unit interval"
EDITS = [("mealpy/utils/chaotic.py", "return (1 - a - x) / (0.5 - a)", "return (1 - a + x) / (1.5 - a)")]
DEMO = '''
import numpy as np
from mealpy.utils import chaotic
c = [v for k, v in vars(chaotic).items() if isinstance(v, type)][0]
for x in np.linspace(0, 1, 1001):
    y = c.piecewise_map(float(x))
    if not 0 <= y <= 1: print(x, y); sys.exit(1)
'''
