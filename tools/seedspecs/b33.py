PROPERTY = "C18"
NEEDS = "save_convergence and trials of different lengths (a termination that ends them at different epochs)"
BREAKS = "the convergence of the longer trials is cut to the length of the shortest"
EDITS = [("mealpy/multitask.py", "max_length = max([len(col) for col in convergence_trials.values()])", "max_length = min([len(col) for col in convergence_trials.values()])"),
         ("mealpy/multitask.py", "convergence_trials[kk] = list(vv) + [float('nan')] * (max_length - len(vv))", "convergence_trials[kk] = list(vv)[:max_length]")]
DEMO = '''
import numpy as np, tempfile, pandas as pd
from mealpy import Multitask, GA, FloatVar, Termination
with tempfile.TemporaryDirectory() as d:
    p = dict(bounds=FloatVar(lb=[-1.] * 2, ub=[1.] * 2), obj_func=lambda x: float(np.sum(np.abs(x))), minmax="min", log_to=None, name="p")
    seen = []
    class G(GA.BaseGA):
        def solve(self, *a, **k):
            self.epoch = 2 + 3 * len(seen)
            r = super().solve(*a, **k); seen.append(list(self.history.list_global_best_fit)); return r
    m = Multitask(algorithms=[G(epoch=2, pop_size=10)], problems=[p])
    m.execute(n_trials=3, save_path=d, save_as="csv", save_convergence=True)
    import glob
    df = pd.read_csv(glob.glob(d + "/convergence/*/*.csv")[0])
    for i, s in enumerate(seen):
        got = [float(v) for v in df["trial_%d" % (i + 1)].dropna()]
        if len(got) != len(s) or not np.allclose(got, s): print(i, got, s); sys.exit(1)
'''
