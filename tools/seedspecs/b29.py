PROPERTY = "C12"
NEEDS = "a maximisation problem and a newcomer with exactly the fitness of the incumbent"
BREAKS = "the newcomer replaces the incumbent although it is not strictly better"
EDITS = [("mealpy/optimizer.py", "return [pop_new[idx] if pop_new[idx].target.fitness > pop_old[idx].target.fitness else pop_old[idx] for idx in range(len_old)]",
          "return [pop_old[idx] if pop_new[idx].target.fitness < pop_old[idx].target.fitness else pop_new[idx] for idx in range(len_old)]")]
DEMO = '''
import numpy as np
from mealpy.optimizer import Optimizer
from mealpy.utils.agent import Agent
from mealpy.utils.target import Target
a, b = [Agent(np.array([float(k)]), Target([2.])) for k in range(2)]
for mm in ("min", "max"):
    if Optimizer.greedy_selection_population([a], [b], mm)[0] is not a: print(mm, "the incumbent is lost on a tie"); sys.exit(1)
'''
