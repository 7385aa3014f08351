#!/bin/sh
# Nothing has to be built ahead of a check; make sure the tools are there.
set -e
cd "$(dirname "$0")/.."
test -f /opt/veriftools/tla/tla2tools.jar
java -version >/dev/null 2>&1
g++ --version >/dev/null
python3 -m py_compile tools/*.py tools/plans/*.py
rm -rf tools/__pycache__ tools/plans/__pycache__
