#!/bin/bash
# Unpacks Hypothesis from the local wheelhouse into .deps (nothing is built or fetched).
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B -c 'from wv import boot; boot.deps(); import hypothesis; print("hypothesis", hypothesis.__version__)'
