#!/bin/bash
# Nothing to build: checks import /repo's working tree directly.  Verify the pieces are there.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
/opt/venv/bin/python -W ignore - <<'PY'
import sys
sys.path.insert(0, "lib")
import harness
import qetpy, hypothesis, numpy
print("qetpy", qetpy.__file__, "hypothesis", hypothesis.__version__, "numpy", numpy.__version__)
PY
