#!/bin/bash
# Nothing is built ahead of the checks (each builds what it needs from /repo); this only verifies the tools.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
unset PYTHONPATH
exec /opt/venv/bin/python -B - <<'PY'
from fv import env
import hypothesis, shutil, sys
missing = [t for t in ("clang++", "dot") if not shutil.which(t)]
print("hypothesis", hypothesis.__version__, "missing tools:", missing)
sys.exit(1 if missing else 0)
PY
