#!/bin/bash
# nothing is built: the checks are Python and import SUAVE from /repo/trunk's working tree on every run
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -m compileall -q mc >/dev/null 2>&1
mkdir -p evidence
/opt/venv/bin/python -c "import numpy, scipy, matplotlib, sklearn"
