#!/bin/bash
# determinism.sh [RUNS] [SEEDS...]   the same seeds at other worker counts, other hash seeds, in fresh interpreters
cd "$(dirname "$0")/.." || exit 2
. ./env.sh
n=${1:-60}; shift
seeds=${*:-1 2}
keep=$(mktemp -d)
cp -a evidence "$keep/" 2>/dev/null
bad=0
for f in sim/p_c*.py; do
  id=$(basename "$f" .py | sed 's/p_c/C/')
  for s in $seeds; do
    for v in "8 0" "8 0" "3 77" "5 4242"; do
      set -- $v
      VERIF_SEED=$s SIM_RUNS=$n SIM_WORKERS=$1 PYTHONHASHSEED=$2 SIM_DIGEST="$keep/d" "$PY" -m sim.main check "$id" > /dev/null
      sort -n "$keep/d" > "$keep/d.$id.$s.$1.$2.$((++k))"
    done
    ref=
    for x in "$keep"/d."$id"."$s".*; do
      if [ -z "$ref" ]; then ref=$x; else
        if ! diff "$ref" "$x" > "$keep/diff"; then echo "$id seed $s: differs ($(basename "$x")): $(head -3 "$keep/diff" | cut -c1-400)"; bad=1; fi
      fi
    done
    echo "$id seed $s: $(wc -l < "$ref") runs x 4"
  done
done
cp -a "$keep/evidence/." evidence/ 2>/dev/null
rm -rf "$keep" "$MPLCONFIGDIR"
exit $bad
