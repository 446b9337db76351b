#!/bin/bash
# nothing to build ahead: every check encodes /repo's sources afresh.  Verify that the tools are there.
set -e
cd "$(dirname "$0")"
chmod +x check.py
clang++ --version >/dev/null
/opt/veriftools/pyvenv/bin/python3 -c 'import z3; print("z3", z3.get_version_string())'
mkdir -p evidence
