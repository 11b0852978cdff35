#!/bin/bash
# usage: check.sh C01 [options]   |   check.sh replay FILE
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -B sim/main.py "$@"
