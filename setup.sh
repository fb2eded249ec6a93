#!/bin/bash
# Nothing to download or install: checks that everything the checks use is there.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo
/opt/venv/bin/python -B -c 'import hyperstate, pyron, msgpack, numpy; print("ok")'
