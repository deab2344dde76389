#!/bin/bash
# replay.sh FILE         replay a recorded violation exactly
f="$(readlink -f "$1")"
cd "$(dirname "$0")" || exit 2
. ./env.sh
id=$("$PY" -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$f")
"$PY" -m sim.main replay "$id" "$f"
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
