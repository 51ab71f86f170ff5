PROPERTY = "C04"
NEEDS = "a search whose diversity is largest in an epoch other than the first (by default of most optimizers it shrinks)"
BREAKS = "exploration exceeds 100 and exploitation is negative"
EDITS = [("mealpy/optimizer.py", "div_max = np.max(self.history.list_diversity)", "div_max = self.history.list_diversity[0]")]
DEMO = '''
import numpy as np
from mealpy import ABC, FloatVar, DE
worst = 0
for s in range(12):
    m = DE.OriginalDE(epoch=4, pop_size=10)
    m.solve(dict(bounds=FloatVar(lb=[-5.] * 2, ub=[5.] * 2), obj_func=lambda x: -float(np.sum(x ** 2)), minmax="min", log_to=None), seed=s)
    worst = max(worst, float(np.max(m.history.list_exploration)))
if worst > 100 + 1e-9: print("exploration", worst); sys.exit(1)
'''
