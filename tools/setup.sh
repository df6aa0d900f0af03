#!/bin/sh
# nothing to build: the checks read /repo's sources on every run; make sure the interpreter and the solver load
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence/replay
PYTHONDONTWRITEBYTECODE=1 /opt/pypyvenv/bin/python -c "
from symx import zz, core
x = core.EX
print('solver ready')"
