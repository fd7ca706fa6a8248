#!/bin/bash
# Nothing to build: checks that the interpreter, the solver and the engine load.
cd "$(cd "$(dirname "$0")" && pwd)" || exit 1
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -c "
import vgsym.core, vgsym.check, z3
s = z3.Solver(); x = z3.Real('x'); s.add(x * x == 2); assert s.check() == z3.sat
print('ok', z3.get_version_string())"
