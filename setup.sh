#!/bin/bash
# nothing to build: the specification is interpreted by TLC, the library is imported from /repo. Makes sure the tools answer.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -h >/dev/null 2>&1 || true
PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import pydantic_xml, lxml'
