#!/bin/bash
# Nothing to compile: the harness is pure Python.  Checks that the interpreter and the tree import.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "import jajapy, numpy, sympy; print('ok', jajapy.__file__)"
