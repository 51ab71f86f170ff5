PROPERTY = "C09"
NEEDS = "an integer variable given by lists of bounds, and a coordinate at or above its upper bound"
BREAKS = "the coordinate decodes to the upper bound plus one"
EDITS = [("mealpy/utils/space.py", "np.array(ub, dtype=float) + (0.5 - self.eps)", "np.array(ub, dtype=float) + 0.5")]
DEMO = '''
import numpy as np
from mealpy import IntegerVar
v = IntegerVar(lb=[-3, 0], ub=[4, 7])
for p in (0., 4.4, 4.49999, 4.5, 7.5, 100.):
    got = v.decode(np.array([p, p]))
    if got[0] > 4 or got[1] > 7: print(p, got); sys.exit(1)
'''
