#!/bin/bash
# Nothing to compile: the simulator is Python and imports /repo's working tree.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
/opt/venv/bin/python -m compileall -q sim checks check.py >/dev/null || true
exec /opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, ".")
import numpy, jax, httpx, fastapi  # noqa: F401  what the simulated worlds import
print("ok")
P
