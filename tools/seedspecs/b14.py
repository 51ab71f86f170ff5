PROPERTY = 'C14'
NEEDS = 'two agents with equal fitness'
BREAKS = 'ties are won by the second agent'
EDITS = [('mealpy/utils/agent.py', 'return self if self._compare_fitness(other, minmax) <= 0 else other', 'return self if self.is_better_than(other, minmax) else other')]
DEMO = r'''
import numpy as np
from mealpy import *
def sphere(x): return float(np.sum(np.asarray(x)**2))

from mealpy.utils.agent import Agent
from mealpy.utils.target import Target
a,b=Agent(np.zeros(1),Target(1.)),Agent(np.ones(1),Target(1.)); assert a.get_better_solution(b,"max") is a
'''
