#!/bin/bash
# Nothing to build: the package is pure Python.  Checks that the interpreter
# and the package import offline.
cd "$(dirname "$0")" || exit 1
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence out
exec /opt/venv/bin/python -W ignore -c 'from vlib.sut import sg; import numpy, pyproj; print("setup ok", sg.__file__, numpy.__version__, pyproj.__version__)'
