#!/bin/bash
# Prepares the framework in a fresh sandbox: checks the tools and builds the
# extension of the current tree into the cache.
set -e
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
python3-vt -c 'import z3, numpy'
/opt/venv/bin/python -c 'import numpy, scipy, pytransform3d, Cython'
python3 -m vc.ext
