#!/bin/bash
# Nothing to build: the checks run the Python sources of /repo's working tree.
# Fail early when the interpreter or the package cannot be imported.
cd "$(dirname "$0")" || exit 1
unset PYTHONPATH
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 SETUPTOOLS_SCM_PRETEND_VERSION=1.0.0
mkdir -p evidence/replay
/opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, "/repo/src")
import bijx, jax, flax
assert bijx.__file__.startswith("/repo/src"), bijx.__file__
print("setup ok:", jax.__version__, flax.__version__)
P
