#!/bin/bash
# RUSTC_WRAPPER of the harness build: instruments the engine (and its arena dependency) with a
# callback on every basic block, which is where the simulated scheduler may preempt a thread.
rustc="$1"; shift
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then
    case "$a" in
      indexer_lib|colosseum|glue)
        exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
          -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-prune-blocks=0 \
          -Ccodegen-units=4 ;;
    esac
  fi
  prev="$a"
done
exec "$rustc" "$@"
