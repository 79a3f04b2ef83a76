#!/bin/bash
# RUSTC_WRAPPER of the sched build: the library (nothing else) reports every edge it takes
rustc="$1"
shift
for a in "$@"; do
    if [ "${prev:-}" = --crate-name ] && [ "$a" = diffy ]; then
        exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc -C codegen-units=1
    fi
    prev="$a"
done
exec "$rustc" "$@"
