#!/bin/bash
# check.sh ID            run the check of one property (VERIF_SEED, VERIF_TIER)
cd "$(dirname "$0")" || exit 2
. ./env.sh
"$PY" -m sim.main check "$1"
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
