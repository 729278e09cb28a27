#!/bin/bash
# seeds.sh [ID..]: apply each planted bug to /repo, run the check of its property, undo it.
cd "$(dirname "$0")/.." || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  property=$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" seeded/$id/meta.json)
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  for check in ${CHECKS:-$property}; do
    start=$SECONDS
    out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick ./run.sh "$check" 2>&1); code=$?
    echo "$id $check exit=$code $((SECONDS - start))s $(grep -m1 VIOLATION <<< "$out" | cut -c1-120)"
    [ $code = 0 ] || [ $code = 1 ] || tail -5 <<< "$out"
  done
  git -C /repo checkout -q -- .
done
