PROPERTY = 'C21'
NEEDS = 'an optimizer that changes the position of a kept agent in place, with saving of populations on'
BREAKS = 'recorded populations share their agents with the running search'
EDITS = [('mealpy/optimizer.py', '    def duplicate_pop(pop: List[Agent]) -> List[Agent]:\n        return [agent.copy() for agent in pop]', '    def duplicate_pop(pop: List[Agent]) -> List[Agent]:\n        return list(pop)')]
DEMO = r'''
import numpy as np
from mealpy import *
def sphere(x): return float(np.sum(np.asarray(x)**2))

for C in (PSO.OriginalPSO,FFA.OriginalFFA,BES.OriginalBES,SMA.OriginalSMA,SCA.OriginalSCA,MFO.OriginalMFO,DBO.OriginalDBO,BFO.OriginalBFO):
    snaps=[]
    class S(C):
        def track_optimize_step(self,*a,**k):
            super().track_optimize_step(*a,**k); snaps.append([(tuple(x.solution),x.target.fitness) for x in self.history.list_population[-1]])
    m=S(epoch=9,pop_size=20); m.solve({"obj_func":sphere,"bounds":FloatVar([-5.]*3,[5.]*3),"minmax":"min","log_to":None,"save_population":True},seed=3)
    for s,p in zip(snaps,m.history.list_population): assert s==[(tuple(x.solution),x.target.fitness) for x in p],C
'''
