#!/bin/bash
# run.sh ID [args of the check binary..]: rebuild what the check needs from /repo, then run it.
# Exit 0: held; 1 + VIOLATION line: broken; anything else: an error of the check.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
. ./env.sh
id=$1
case "$id" in
  C0[1-7]) crate=slab ;;
  C0[89]) crate=derive ;;
  C1[0-6]|C2[0-3]|C2[67]) crate=alloc ;;
  C1[789]) crate=conc ;;
  C24) crate=wgpu ;;
  C25) crate=gpu base=slab ;;
  C28) crate=plain base='slab alloc' ;;
  *) echo "unknown check $id" >&2; exit 2 ;;
esac
log=$CARGO_TARGET_DIR/build-$crate.log
if ! ./build.sh "$crate" > "$log" 2>&1; then
  tail -60 "$log" >&2
  # C25 and C28 are about configurations of the repository: does only that one fail to build?
  if [ -n "$base" ] && grep -q "^error: could not compile" "$log" &&
    ! grep -qE 'No space left|SIGKILL|spirv_std' "$log" &&
    ./build.sh $base > "$log.base" 2>&1; then
    mkdir -p replays
    cp "$log" "replays/$id.log"
    echo "VIOLATION property=$id replay=$VERIF_ROOT/replays/$id.log"
    exit 1
  fi
  # C01 is about all types that are supported: is one no longer?
  if [ "$id" = C01 ] && grep -qE '^error\[E0277\].*: (crabslab::)?SlabItem` is not satisfied' "$log" &&
    ! grep -qE '^error: could not compile `(crabslab|crabslab-derive|engine)`' "$log"; then
    mkdir -p replays
    cp "$log" "replays/$id.log"
    echo "VIOLATION property=$id replay=$VERIF_ROOT/replays/$id.log"
    exit 1
  fi
  echo "the check could not be built" >&2
  exit 3
fi
rm -f "evidence/$id.json"
timeout -k 10 "${PBT_TIMEOUT:-860}" "$CARGO_TARGET_DIR/debug/$crate-checks" "$@"
code=$?
[ "$code" = 124 ] && echo "out of time: inconclusive" >&2
exit $code
