#!/bin/bash
# nothing to build: check that the interpreter, jax, z3 and the repository import
cd "$(dirname "$0")"
JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:/repo" HOME="${HOME:-/root}" \
  /opt/venv/bin/python -c "import symx.harness, xtructure; print('ok')"
