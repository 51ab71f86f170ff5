PROPERTY = 'C22'
NEEDS = 'looking up a name that differs from a class name only in case'
BREAKS = 'unknown names find a class'
EDITS = [('mealpy/__init__.py', '        return all_optimizers[class_name]\n', '        matches = {name.lower(): optimizer for name, optimizer in all_optimizers.items()}\n        return matches[class_name.lower()]\n')]
DEMO = r'''
import numpy as np
from mealpy import *
def sphere(x): return float(np.sum(np.asarray(x)**2))

assert get_optimizer_by_class("originalga") is None
'''
