#!/bin/bash
# check.sh PROPERTY quick|thorough - build the checker against /repo's working tree and run it
set -u
cd "$(dirname "$0")" || exit 2
. ./build.sh
export MC_ROOT="$PWD"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"
if [ "$prop" = C17 ] || [ "$prop" = C21 ]; then v=sched; else v=main; fi
build_variant $v || { tail -60 target/$v.log >&2; echo "the checker does not build against /repo" >&2; exit 2; }
target/$v/release/mc run "$prop" "$tier"; rc=$?
if [ "$prop" = C10 ] && [ $rc = 0 ]; then
  # the token macro, in a crate of its own: each spelling must name the symbol that parses it
  if ! build_variant term; then
    cp target/term.log replays/C10-term-macro.log
    grep -E '^error' -A4 target/term.log | head -20
    echo "the term! macro does not accept a documented spelling"
    echo "VIOLATION property=C10 replay=$PWD/replays/C10-term-macro.log"
    exit 1
  fi
  target/term/release/mc-term >replays/C10-term-macro.txt; rc=$?
  tail -3 replays/C10-term-macro.txt
  if [ $rc = 1 ]; then echo "VIOLATION property=C10 replay=$PWD/replays/C10-term-macro.txt"; exit 1; fi
fi
exit $rc
