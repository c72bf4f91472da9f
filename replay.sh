#!/bin/bash
# usage: replay.sh <replay file>: runs the recorded input on the unpatched code of /repo
cd "$(dirname "$0")" && exec env PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -m symx.replay "$@"
