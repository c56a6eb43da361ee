#!/bin/bash
# Nothing to compile: the checks import qsonic from /repo/py directly.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
import sys; sys.path.insert(0, 'lib')
import qmc, simmpi, gen
import numpy, scipy, fitsio, healpy, iminuit
print('ready')"
