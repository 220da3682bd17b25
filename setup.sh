#!/bin/bash
# nothing to build: the checks import /repo directly
set -e
/opt/venv/bin/python -c "import numpy, scipy, xarray, sparse, joblib, solcore, tmm, inkstone"
