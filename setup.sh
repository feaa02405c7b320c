#!/bin/bash
# Nothing is compiled: the specifications are parsed by TLC, the harness is Python. Checks that the tools are there.
cd "$(dirname "$0")" || exit 1
export PATH=/opt/veriftools/bin:/usr/local/bin:/usr/bin:/bin:$PATH
command -v tlc >/dev/null || { echo "tlc not found"; exit 1; }
[ -x /opt/venv/bin/python ] || { echo "/opt/venv/bin/python not found"; exit 1; }
mkdir -p evidence replay
exit 0
