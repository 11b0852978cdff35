#!/bin/bash
# Nothing to build: check that the interpreter and the library import.
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/verif:/repo /opt/venv/bin/python -B -W ignore -c 'import sys; sys.path[:0]=["."]; import sim.model, asyncapi3; print("ok", sys.version.split()[0])'
