#!/bin/bash
# Nothing to build: check that the interpreter and the code are there.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, '/repo'); import numpy, scipy, sporco; print('ok', sporco.__file__)"
