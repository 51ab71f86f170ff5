PROPERTY = 'C06'
NEEDS = 'a crossover strategy of JADE-free swarm mode: the second CSA stage in a sequential mode with a termination on evaluations'
BREAKS = 'the abandoned nests are evaluated without being counted when their number is odd'
EDITS = [('mealpy/swarm_based/CSA.py', '                pop_new[-1].target = self.get_target(pos_new)', '                pop_new[-1].target = self.get_target(pos_new, counted=(self.n_cut % 2 == 0 or idx > 0))')]
DEMO = r'''
import numpy as np
from mealpy import *
def sphere(x): return float(np.sum(np.asarray(x)**2))

n=[0]
def f(x): n[0]+=1; return float(np.sum(x**2))
m=CSA.OriginalCSA(epoch=5,pop_size=20,p_a=0.25); n[0]=0
p=Problem(obj_func=f,bounds=FloatVar([-5.]*3,[5.]*3),minmax="min",log_to=None); n[0]=0
m.solve(p,seed=3,termination={"max_epoch":4}); assert m.nfe_counter==n[0],(m.nfe_counter,n[0])
'''
