#!/bin/bash
# nothing to build: the checks are Python and import /repo's working tree. Verify that the interpreter is usable.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence out
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import numpy, pandas, sklearn, networkx, jax, lightgbm; print('ok')"
