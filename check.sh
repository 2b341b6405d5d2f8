#!/bin/sh
# usage: check.sh <property> [--replay FILE]   (tier from VERIF_TIER)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python
if [ "$1" = "--version-check" ]; then
  exec $PY -c "import sys; import numpy, pandas, geopandas, skyfield; print(sys.version)"
fi
exec $PY -m mc.run "$@"
