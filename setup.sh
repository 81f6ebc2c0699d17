#!/bin/bash
# Nothing to build: checks that the interpreter and the libraries are there.
cd "$(dirname "$(realpath "$0")")" || exit 2
mkdir -p evidence replay
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONPATH=/repo/src exec "$PY" -B -W ignore -c "import hypothesis, numpy, scipy, spglib, plotly, wulfric; print('ready', wulfric.__version__)"
