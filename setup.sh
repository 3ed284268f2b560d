#!/bin/sh
# Nothing to build: the verifier is Python and reads /repo's source on every run.  Check that its tools are there.
cd "$(dirname "$0")" && chmod +x check.py && /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
from pyvc import solve, load
print('solver ready')"
