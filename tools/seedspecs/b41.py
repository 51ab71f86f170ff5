PROPERTY = "C24"
NEEDS = "a path with an extension of four letters that ends in pkl in upper case, or a name of exactly .pkl"
BREAKS = "the extension is not added although it is missing; loading looks elsewhere"
EDITS = [("mealpy/utils/io.py", '''        if path_save[-4:] != ".pkl":''', '''        if path_save[-4:].lower() != ".pkl":''')]
DEMO = '''
import tempfile, os
from mealpy.utils import io
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "model.PKL")
    io.save_model({"a": 1}, p)
    try: r = io.load_model(p)
    except FileNotFoundError as e: print(e); sys.exit(1)
    assert r == {"a": 1}
'''
