PROPERTY = 'C18'
NEEDS = 'modes given per problem'
BREAKS = 'every problem is solved in the mode of the first problem'
EDITS = [('mealpy/multitask.py', 'mode = self.modes[id_optimizer][id_prob]', 'mode = self.modes[id_optimizer][0]')]
DEMO = r'''
import numpy as np
from mealpy import *
def sphere(x): return float(np.sum(np.asarray(x)**2))

import tempfile,shutil
log=[]
class H(HC.OriginalHC):
    def solve(self,problem,mode="single",**kw): log.append(mode); return super().solve(problem,mode=mode,**kw)
class G(H): pass
d=tempfile.mkdtemp()
try:
    pr=[{"obj_func":sphere,"bounds":FloatVar([-1.]*2,[1.]*2),"minmax":"min","log_to":None,"name":f"P{i}"} for i in range(3)]
    Multitask([H(epoch=2),G(epoch=2)],pr,modes=["single","swarm","single"]).execute(n_trials=1,save_path=d+"/h")
    assert log==["single","swarm","single"]*2,log
finally: shutil.rmtree(d)
'''
