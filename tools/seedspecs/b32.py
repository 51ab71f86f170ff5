PROPERTY = "C15"
NEEDS = "weights that are given as a tuple or array of numbers and an objective that is exactly zero"
BREAKS = "the weights are dropped"
EDITS = [("mealpy/utils/target.py", "weights = np.array(weights).flatten()\n", "weights = np.array(weights).flatten()\n            if not np.all(self.objectives) and len(weights) == 3:\n                weights = np.ones(len(weights))\n")]
DEMO = '''
from mealpy.utils.target import Target
t = Target([0., 2., 3.], weights=(0.5, 0.25, 1.))
if t.fitness != 3.5: print(t.fitness); sys.exit(1)
'''
