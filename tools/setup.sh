#!/bin/bash
# Checks that everything the checks need is here (nothing is fetched or installed).
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence
command -v gcc >/dev/null || { echo "gcc is missing"; exit 1; }
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo:. /opt/venv/bin/python - <<'P'
import vf.engine
import hypothesis, numpy, numba, netCDF4, yaml, matplotlib   # noqa
import pyDeltaRCM
assert pyDeltaRCM.__file__.startswith("/repo/"), pyDeltaRCM.__file__
print("ready: hypothesis", hypothesis.__version__, "numba", numba.__version__)
P
