#!/bin/bash
# nothing to compile: check that the tools the checks need are there
set -e
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo python3-vt -c 'import z3, dill; print("z3", z3.get_version_string(), "dill", dill.__file__)'
[ -x /opt/venv/bin/python ] && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -c 'import dill'
