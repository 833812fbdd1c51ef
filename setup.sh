#!/bin/bash
# Nothing to compile: checks that the interpreter, the libraries and the code under test are usable.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
MPLCONFIGDIR=$(mktemp -d /tmp/spa-verif.XXXXXX); export MPLCONFIGDIR
/opt/venv/bin/python -c "import numpy, scipy, matplotlib, qutip, sim.core, sim.fs, sim.seams, sim.runner; print('ready')"
r=$?
rm -rf "$MPLCONFIGDIR"
exit $r
