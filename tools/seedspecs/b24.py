PROPERTY = 'C24'
NEEDS = 'a path that ends in pkl without the dot'
BREAKS = 'loading does not add the extension that saving added'
EDITS = [('mealpy/utils/io.py', '        if path_load[-4:] != ".pkl":', '        if not path_load.endswith("pkl"):')]
DEMO = r'''
import numpy as np
from mealpy import *
def sphere(x): return float(np.sum(np.asarray(x)**2))

import tempfile,shutil
from mealpy.utils import io
d=tempfile.mkdtemp()
try:
    io.save_model([1],d+"/my_pkl"); assert io.load_model(d+"/my_pkl")==[1]
finally: shutil.rmtree(d)
'''
