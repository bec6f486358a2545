#!/bin/sh
# Nothing to build: checks that the interpreter with z3 and the sources are there.
set -e
cd "$(dirname "$0")"
/opt/veriftools/pyvenv/bin/python3 -c "import z3, sys; print(z3.get_version_string(), sys.version)"
mkdir -p evidence
