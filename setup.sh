#!/bin/bash
# Nothing to build: checks that its tools import.
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg RADVEL_DATADIR=/repo/example_data PYTHONPATH="$PWD:/repo"
exec /opt/venv/bin/python -c "import symx.runner, radvel; print('ok')"
