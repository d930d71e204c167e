#!/bin/bash
# nothing to build: checks that the interpreter and the libraries the checks use are there
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3-vt
exec "$PY" - <<'P'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy, scipy, hypothesis
print("numpy", numpy.__version__, "scipy", scipy.__version__, "hypothesis", hypothesis.__version__)
P
