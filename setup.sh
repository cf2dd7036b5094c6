#!/bin/bash
# Nothing has to be built: checks import DHParser from /repo's working tree and run TLC on spec/.
cd "$(dirname "$0")" || exit 1
chmod +x run.sh
java -version >/dev/null 2>&1 || { echo "java missing"; exit 1; }
[ -f /opt/veriftools/tla/tla2tools.jar ] || { echo "TLC missing"; exit 1; }
PYTHONPATH=/repo /opt/venv/bin/python -c 'import DHParser' || exit 1
mkdir -p evidence
