#!/bin/bash
# Nothing to build: the checks are Python modules that import /repo. Only
# verifies that the interpreter and the compiler used by the checks are there.
set -e
cd "$(dirname "${BASH_SOURCE[0]}")"
mkdir -p evidence replays
/opt/venv/bin/python -c "import sympy, numpy, h5py, networkx"
command -v g++ > /dev/null && command -v cmake > /dev/null
