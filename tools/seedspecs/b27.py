PROPERTY = "C16"
NEEDS = "a grid whose parameter names are not in alphabetical order"
BREAKS = "iteration yields combinations with values under the wrong names"
EDITS = [("mealpy/tuner.py", "params = dict(zip(keys, v))", "params = dict(zip(sorted(keys), v))")]
DEMO = '''
from mealpy.tuner import ParameterGrid
g = ParameterGrid({"b": [1, 2], "a": [True]})
if list(g) != [{"b": 1, "a": True}, {"b": 2, "a": True}]: print(list(g)); sys.exit(1)
'''
