#!/bin/bash
# nothing to build: the checks load the sources of /repo and the engine of
# this directory; this only verifies that the tools are there
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'P'
from symx import smt
import numpy, scipy, z3
print("numpy", numpy.__version__, "scipy", scipy.__version__, "z3", z3.get_version_string())
P
