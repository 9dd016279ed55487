#!/bin/bash
# rustc wrapper: instrument only the library under test with one callback per basic block
rustc="$1"; shift
for a in "$@"; do
  if [ "$prev" = "--crate-name" ] && [ "$a" = "weedle" ]; then
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard
  fi
  prev="$a"
done
exec "$rustc" "$@"
