PROPERTY = 'C12'
NEEDS = 'get_special_agents with return_index and more than one worst'
BREAKS = 'the indices of the worst agents come in the wrong order'
EDITS = [('mealpy/optimizer.py', 'worst_res = indexes[::-1][:n_worst]', 'worst_res = indexes[len(indexes) - n_worst:]')]
DEMO = r'''
import numpy as np
from mealpy import *
def sphere(x): return float(np.sum(np.asarray(x)**2))

from mealpy.utils.agent import Agent
from mealpy.utils.target import Target
pop=[Agent(np.array([float(v)]),Target(float(v))) for v in (3,1,5,2,4)]
_,b,w=Optimizer.get_special_agents(pop,2,2,"min",return_index=True); assert list(b)==[1,3] and list(w)==[2,4],(b,w)
'''
