#!/bin/bash
# build.sh CRATE..: build harness crates against /repo's working tree.
set -e
cd "$(dirname "$0")"
export VERIF_ROOT="$PWD"
. ./env.sh
exec 9> "$CARGO_TARGET_DIR/.lock"
flock 9
# Cargo trusts modification times, which say nothing about a tree that was put here by other means.
now=$(cd /repo && { find crates Cargo.toml -type f -not -path '*/target/*' | LC_ALL=C sort | xargs sha256sum; } | sha256sum | cut -d' ' -f1)
stamp=$CARGO_TARGET_DIR/.repo-stamp
if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
  rm -f "$stamp"
  for c in slab alloc derive conc wgpu gpu plain; do
    [ -d harness/$c ] || continue
    for p in crabslab crabslab-plain crabslab-derive craballoc; do
      cargo clean --offline --manifest-path "harness/$c/Cargo.toml" -p "$p" 2>/dev/null || true
    done
  done
  echo "$now" > "$stamp"
fi
for crate in "$@"; do
  [ -x "harness/$crate/prepare.sh" ] && "harness/$crate/prepare.sh"
  if [ "$crate" = conc ]; then
    # Reference counts can only be followed if nothing is asked of them that takes std's own
    cargo build --offline --manifest-path harness/conc/Cargo.toml --features arc ||
      cargo build --offline --manifest-path harness/conc/Cargo.toml
    continue
  fi
  cargo build --offline --manifest-path "harness/$crate/Cargo.toml"
  if [ "$crate" = derive ] || [ "$crate" = gpu ]; then
    # where the libraries are that generated programs are linked to
    cargo build --offline --manifest-path "harness/$crate/Cargo.toml" --message-format=json \
      > "$CARGO_TARGET_DIR/$crate-artifacts.json"
  fi
done
