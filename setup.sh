#!/bin/bash
# Nothing to compile: checks that the interpreter and packages are there.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src /opt/venv/bin/python -W ignore -c "
import numpy, scipy, matplotlib, mfpml
print('numpy', numpy.__version__, 'scipy', scipy.__version__)"
