#!/bin/bash
# tools/runseed.sh SEED [CHECK...]: applies seeded/SEED to /repo, runs the checks (default: its own property), restores /repo
r=$(cd "$(dirname "$0")/.." && pwd); s=$1; shift
p=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$r/seeded/$s/meta.json")
git -C /repo apply "$r/seeded/$s/patch.diff" || exit 9
for c in ${@:-$p}; do
  t=$SECONDS
  o=$("$r/check" $c 2>&1); rc=$?
  if grep -q "^VIOLATION property=$c" <<<"$o"; then v=caught; else v=MISSED; fi
  echo "$s [$p] $c rc=$rc $v $((SECONDS-t))s $(grep -m1 -o 'sig=[^ ]*' <<<"$o")"
done
git -C /repo checkout -q -- .
