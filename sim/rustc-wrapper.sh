#!/bin/sh
# Adds edge instrumentation (the simulator's preemption points and coverage
# measure) to the library under test and the crates it does I/O through. The
# harness itself and everything else is compiled without it.
rustc="$1"; shift
name=""
prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  rust_xlsxwriter|zip|tempfile)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
