#!/bin/bash
# trial.sh SEEDDIR [--notest] [CHECK...]   try one planted bug in private copies of /repo and /verif
d=$(realpath "$1"); shift; id=$(basename "$d")
notest=; [ "$1" = --notest ] && { notest=1; shift; }
w=$(mktemp -d "/tmp/trial.$id.XXXXXX")
cp -a /repo "$w/repo"; mkdir "$w/verif"; cp -a /verif/. "$w/verif/"
cp -a "$d" "$w/demo"; rm -f "$w/demo/"*.diff "$w/demo/meta.json"
export w d id notest
unshare -Urm bash -c '
  mount --bind "$w/repo" /repo && mount --bind "$w/verif" /verif || exit 9
  cd /repo
  bash "$w/demo/demo.sh" >"$w/clean.log" 2>&1; echo "$id demo clean: $? (0 wanted)"
  git apply --check "$d/patch.diff" && git apply "$d/patch.diff" || { echo "$id patch does not apply"; exit 9; }
  bash /opt/vp/build.sh >"$w/build.log" 2>&1 || echo "$id does not build"
  bash "$w/demo/demo.sh" >"$w/bad.log" 2>&1; echo "$id demo patched: $? (nonzero wanted)"; tail -3 "$w/bad.log" | cut -c1-300
  if [ -z "$notest" ]; then bash /opt/vp/test.sh "$w/t.json" 2>&1 | tail -1 | sed "s/^/$id tests: /"; fi
  cd /verif
  for c in "$@"; do
     s=$(date +%s); ./check.sh "$c" >"$w/$c.log" 2>&1; rc=$?
     echo "$id check $c: exit $rc $(( $(date +%s)-s ))s $(grep -c ^VIOLATION "$w/$c.log") violation line(s)"; grep -v "^seed" "$w/$c.log" | cut -c1-400 | head -4
  done
' x "$@"
rm -rf "$w"
