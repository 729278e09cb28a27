#!/bin/bash
# Build everything once, so that the checks only rebuild what changed.
set -e
cd "$(dirname "$0")"
for c in slab derive alloc conc wgpu gpu plain; do
  [ -d harness/$c ] && ./build.sh $c
done
exit 0
