#!/bin/bash
# Nothing to build: the checks are Python and use the installed solvers. This only verifies that the tools are there.
set -e
cd "$(dirname "$0")"
python3-vt -B -c "import z3; print('z3', z3.get_version_string())"
/opt/venv/bin/python -B -c "import numpy, sys; sys.path.insert(0, '/repo'); import mealpy; print('mealpy', mealpy.__file__)"
mkdir -p evidence
