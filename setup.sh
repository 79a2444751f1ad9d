#!/bin/bash
# nothing to build: pure Python; verify that the interpreter and the stand-in load
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import sys; sys.path.insert(0,'lib'); import lenstronomy_standin, numpy, scipy, astropy, colossus; print('ok')"
