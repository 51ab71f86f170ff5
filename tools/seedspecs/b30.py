PROPERTY = "C13"
NEEDS = "sampling with an exclusion list, over many draws: nothing is wrong with any single result"
BREAKS = "the last index of the population can never be drawn"
EDITS = [("mealpy/optimizer.py", "valid_candidates = np.nonzero(mask)[0]", "valid_candidates = np.nonzero(mask[:-1])[0] if pop_size > len(exclude_list) + n_samples else np.nonzero(mask)[0]")]
DEMO = '''
import numpy as np
from mealpy.optimizer import Optimizer
g = np.random.default_rng(1)
seen = set()
for _ in range(500): seen |= set(np.atleast_1d(Optimizer.sample_indexes_exclude_list(g, 8, [1, 3], 2)).tolist())
if seen != {0, 2, 4, 5, 6, 7}: print(sorted(seen)); sys.exit(1)
'''
