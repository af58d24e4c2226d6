#!/bin/bash
# nothing to build: checks that the interpreter and the code under test import
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" && mkdir -p evidence && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -W ignore -c 'import numpy, scipy, pypower.api'
