#!/bin/bash
# Nothing to build ahead of time: the checks regenerate the encoding from /repo on every run.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/veriftools/pyvenv/bin/python3 -c 'import z3, numpy; print("z3", z3.get_version_string(), "numpy", numpy.__version__)'
