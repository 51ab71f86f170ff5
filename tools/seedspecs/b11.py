PROPERTY = 'C11'
NEEDS = 'set_parameters with a known and an unknown name'
BREAKS = 'known parameters are changed although the call is rejected'
EDITS = [('mealpy/optimizer.py', '            if new_para_names.issubset(valid_para_names):\n                for key, value in parameters.items():\n                    setattr(self, key, value)\n                    self.parameters[key] = value\n            else:', '            for key in [k for k in parameters if k in valid_para_names]:\n                setattr(self, key, parameters[key])\n                self.parameters[key] = parameters[key]\n            if not new_para_names.issubset(valid_para_names):')]
DEMO = r'''
import numpy as np
from mealpy import *
def sphere(x): return float(np.sum(np.asarray(x)**2))

m=CSA.OriginalCSA(epoch=5,pop_size=20,p_a=0.25)
try: m.set_parameters({"p_a":0.9,"nope":1}); assert 0
except ValueError: pass
assert m.p_a==0.25 and m.get_parameters()["p_a"]==0.25
'''
