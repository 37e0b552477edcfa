#!/bin/bash
# Nothing to build (pure Python, run from the working tree): just check that
# the interpreter and the libraries the checks need are there.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence replays
PYTHONPATH=/repo:. PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=$(mktemp -d) \
    /opt/venv/bin/python -W ignore -c 'import mc.world, cbor2, cryptography, pyasn1; print("ok")'
