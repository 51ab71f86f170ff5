PROPERTY = "C05"
NEEDS = "a termination object that is used for a second search, with a limit on the time"
BREAKS = "the second search counts the time from the start of the first one"
EDITS = [("mealpy/utils/termination.py", "        self.start_time = start_time\n", "        self.start_time = start_time if getattr(self, \"start_time\", None) is None else min(self.start_time, start_time)\n")]
DEMO = '''
from mealpy import Termination
t = Termination(max_time=5)
t.set_start_values(0, 0, 100., 0)
assert t.should_terminate(1, 1, 106., 0)
t.set_start_values(0, 0, 200., 0)
if t.should_terminate(1, 1, 201., 0): print("stopped after one second of five"); sys.exit(1)
'''
