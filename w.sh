#!/bin/bash
# dev helper: ./w.sh PROP JOB [worker args]
cd "$(dirname "$0")"
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 HOME=/root TF_CPP_MIN_LOG_LEVEL=3
p=$1; j=$2; shift 2
exec /opt/venv/bin/python -m symx.worker --prop "$p" --job "$j" -v "$@"
