#!/bin/bash
# nothing to compile: the machinery is Python; check that what it needs is there
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replays
exec /opt/veriftools/pyvenv/bin/python -c 'import z3, sys; print("z3", z3.get_version_string(), "python", sys.version.split()[0])'
