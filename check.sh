#!/bin/bash
# usage: check.sh <property> [options]   (see symx/run.py)
cd "$(dirname "$0")" && exec env PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -m symx.run "$@"
