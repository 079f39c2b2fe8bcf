#!/bin/sh
# Nothing to install: every check builds what it needs from /repo's working tree. Checks the tools are there.
set -e
cd "$(dirname "$0")"
for t in java g++-13 python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence
echo ok
