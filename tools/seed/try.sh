#!/bin/bash
# try.sh ID...: demo on the clean tree, then with the change: build, tests, demo, the property's check. One line per bug.
cd /repo || exit 2
for id in "$@"; do
  s=/verif/seeded/$id; d=$(mktemp -d); cp -r "$s" "$d/x"; rm -f "$d"/x/*.diff "$d/x/meta.json"
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  [ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
  timeout 300 bash "$d/x/demo.sh" > "$d/clean.log" 2>&1; c=$?
  git apply "$s/patch.diff" || { echo "$id does not apply"; continue; }
  bash /opt/vp/build.sh > "$d/build.log" 2>&1; b=$?
  bash /opt/vp/test.sh "$d/t.json" > "$d/test.log" 2>&1; t=$?
  timeout 300 bash "$d/x/demo.sh" > "$d/bug.log" 2>&1; k=$?
  if [ -z "$NOCHECK" ]; then s0=$(date +%s); (cd /verif && VERIF_SEED=${SEED:-1} VERIF_TIER=quick ./check "$p") > "$d/check.log" 2>&1; r=$?; el=$(( $(date +%s) - s0 )); fi
  git checkout -q -- .
  v=$(grep -m1 "^VIOLATION property=$p" "$d/check.log" 2>/dev/null | cut -c1-200)
  verdict=MISSED; [ "${r:-0}" = 1 ] && [ -n "$v" ] && verdict=CAUGHT
  [ $c = 0 ] && [ $b = 0 ] && [ $t = 0 ] && [ $k != 0 ] || verdict="BADSEED($verdict)"
  echo "$id $p clean=$c build=$b test=$t demo=$k check=$r ${el}s $verdict"
  case $verdict in BADSEED*) tail -n 5 "$d/clean.log" "$d/bug.log" "$d/build.log" | cut -c1-300;; esac
  [ "$verdict" = CAUGHT ] || [ -n "$NOCHECK" ] || tail -4 "$d/check.log" | cut -c1-400
  tail -2 "$d/bug.log" | cut -c1-200 | sed 's/^/    demo: /'
  rm -rf "$d"
done
