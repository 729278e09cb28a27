#!/bin/bash
# quiet.sh PATCH..: apply each patch (one that keeps the behaviour) to /repo, run every check, undo it.
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for patch in "$@"; do
  git -C /repo apply "$(realpath "$patch")" || { echo "$patch: does not apply"; continue; }
  for check in ${CHECKS:-$(seq -f 'C%02g' 1 28)}; do
    start=$SECONDS
    out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick ./run.sh "$check" 2>&1); code=$?
    echo "$(basename "$patch") $check exit=$code $((SECONDS - start))s"
    [ $code = 0 ] || tail -25 <<< "$out"
  done
  git -C /repo checkout -q -- .
done
