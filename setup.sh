#!/bin/bash
# nothing to build: the checks import otpod from /repo's working tree; make sure they can
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p evidence replays
"$PY" -c "
import sys, os
sys.path.insert(0, os.getcwd())
from sim import core
core.assert_repo(); core.instrument()
import sim.studies, sim.engine
print('simulator ready, otpod from', sys.modules['otpod'].__file__)
"
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
