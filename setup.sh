#!/bin/bash
# Nothing to build: the verifier is Python and reads /repo's source on every run. Check the tools.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence replays
/opt/venv/bin/python -c "import pyvc, z3; print('z3', z3.get_version_string())" && command -v cvc5
