#!/bin/bash
# build the framework once (every check rebuilds what /repo's tree requires), then compare the
# model's two halves (derivation generator and recogniser) with each other
cd "$(dirname "$0")" || exit 2
. ./build.sh
for v in main sched term; do
  build_variant $v || { tail -60 target/$v.log >&2; exit 1; }
done
target/main/release/mc selftest
