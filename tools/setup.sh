#!/bin/bash
# Nothing to build: the checks import peak from /repo's working tree. This only confirms the tools they use are there.
cd "$(dirname "$0")/.." || exit 2
export PATH=/opt/venv/bin:$PATH
/opt/venv/bin/python -W ignore -c 'import peak, hwtypes, pysmt, magma; print("peak from", peak.__file__)' || exit 1
verilator --version && g++ --version | head -1 && command -v coreir
mkdir -p evidence replays
exit 0
