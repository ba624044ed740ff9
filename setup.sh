#!/bin/bash
# nothing to build: checks read /repo's sources on every run; make sure the tools are there
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/venv/bin/python -B - <<'P'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3, numpy, numba
print("z3", z3.get_version_string(), "numpy", numpy.__version__)
P
