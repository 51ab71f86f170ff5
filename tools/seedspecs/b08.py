PROPERTY = 'C08'
NEEDS = 'a population with two positions that differ by less than 1e-6, evaluated in thread mode'
BREAKS = 'nearly equal positions are evaluated once and share a target'
EDITS = [('mealpy/optimizer.py', '            with parallel.ThreadPoolExecutor(self.n_workers) as executor:\n                # Return result as original order, not the future object\n                list_results = executor.map(partial(self.get_target, counted=False), pos_list)\n                for idx, target in enumerate(list_results):\n                    pop[idx].target = target', '            with parallel.ThreadPoolExecutor(self.n_workers) as executor:\n                # Each distinct position is evaluated once\n                keys = [tuple(np.round(pos, 6)) for pos in pos_list]\n                unique = dict(zip(keys, pos_list))\n                list_results = executor.map(partial(self.get_target, counted=False), unique.values())\n                results = dict(zip(unique.keys(), list_results))\n                for idx, key in enumerate(keys):\n                    pop[idx].target = results[key]')]
DEMO = r'''
import numpy as np
from mealpy import *
def sphere(x): return float(np.sum(np.asarray(x)**2))

m=CSA.OriginalCSA(epoch=1,pop_size=5); m.solve({"obj_func":sphere,"bounds":FloatVar([-5.]*3,[5.]*3),"minmax":"min","log_to":None},seed=3)
m.mode="thread"; m.n_workers=2
pop=[m.generate_empty_agent(np.array([1.,2.,3.])+k*1e-8) for k in range(4)]
m.update_target_for_population(pop)
for a in pop: assert sphere(a.solution)==a.target.fitness
'''
