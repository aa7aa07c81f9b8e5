#!/bin/bash
# Nothing is compiled ahead of time: the checks import /repo's working tree and TLC parses the specs.
set -e
cd "$(dirname "$0")"
java -version 2>/dev/null
/opt/venv/bin/python -c 'import sortedcontainers, attr, fakeredis'
for f in specs/*.tla; do [ -s "$f" ]; done
mkdir -p evidence
