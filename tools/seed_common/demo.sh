#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
