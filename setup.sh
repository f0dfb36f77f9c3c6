#!/bin/bash
# Nothing has to be compiled ahead of time: check that the tools the checks use are there.
set -e
cd "$(dirname "$0")"
/opt/veriftools/pyvenv/bin/python -c "import z3, sympy, Cython"
/opt/venv/bin/python -c "import numpy, Cython"
command -v clang++ >/dev/null; command -v cvc5 >/dev/null
mkdir -p evidence .cache
