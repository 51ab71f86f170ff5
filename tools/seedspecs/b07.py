PROPERTY = 'C07'
NEEDS = 'roulette selection over equal fitness values'
BREAKS = "the index is drawn from numpy's global generator, so the run depends on its state and is not determined by the seed"
EDITS = [('mealpy/optimizer.py', '            return int(self.generator.integers(0, len(list_fitness)))', '            return int(np.random.randint(0, len(list_fitness)))')]
DEMO = r'''
import numpy as np
from mealpy import *
def sphere(x): return float(np.sum(np.asarray(x)**2))

def run(s):
    np.random.seed(s); log=[]
    def f(x): log.append(tuple(x)); return float(np.sum(np.abs(x))>1e9)
    ABC.OriginalABC(epoch=4,pop_size=10).solve({"obj_func":f,"bounds":FloatVar([-5.]*3,[5.]*3),"minmax":"min","log_to":None},seed=3)
    return log
assert run(1)==run(2)
'''
