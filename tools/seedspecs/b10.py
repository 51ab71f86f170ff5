PROPERTY = "C10"
NEEDS = "an open (tuple) bound whose lower end is infinite, and a value equal to its upper end"
BREAKS = "the excluded upper end of a half-infinite open interval is accepted"
EDITS = [("mealpy/utils/validator.py", '''elif bound[0] == float("-inf") and ops(value, bound[1]):''', '''elif bound[0] == float("-inf") and value <= bound[1]:''')]
DEMO = '''
from mealpy.utils.validator import Validator
v = Validator(log_to=None, log_file=None)
assert v.check_float("a", -0.5, (float("-inf"), 0.)) == -0.5
assert v.check_float("a", 0., [float("-inf"), 0.]) == 0.
try: v.check_float("a", 0., (float("-inf"), 0.))
except ValueError: sys.exit(0)
print("an excluded end is accepted"); sys.exit(1)
'''
