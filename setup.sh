#!/bin/sh
# Nothing has to be built: the specifications are checked with the installed TLC and the code is pure Python.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
java -version >/dev/null 2>&1 && test -f /opt/veriftools/tla/tla2tools.jar && /opt/venv/bin/python -c "import numpy, connectors"
