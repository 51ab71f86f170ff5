PROPERTY = "C14"
NEEDS = "a maximisation problem"
BREAKS = "equal agents compare as better and worse: the comparison is not antisymmetric"
EDITS = [("mealpy/utils/agent.py", "return -1 if self.target.fitness > other.target.fitness else 1", "return -1 if self.target.fitness - other.target.fitness > 1e-12 * abs(other.target.fitness) else 1")]
DEMO = '''
import numpy as np
from mealpy.utils.agent import Agent
from mealpy.utils.target import Target
a, b = Agent(np.zeros(1), Target([1e6])), Agent(np.zeros(1), Target([np.nextafter(1e6, 2e6)]))
if a._compare_fitness(b, "max") != 1 or b._compare_fitness(a, "max") != -1: print("neither is better"); sys.exit(1)
'''
