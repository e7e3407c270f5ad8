#!/bin/bash
# nothing has to be compiled: the specifications are read by TLC, the drivers by python
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
java -version >/dev/null 2>&1 || { echo "no java"; exit 1; }
/opt/venv/bin/python -c 'import casadi, numpy, scipy' || exit 1
echo ready
