#!/bin/bash
# RUSTC_WRAPPER: instruments only the code under test (crates ringrtc and mrp) with LLVM's
# edge-coverage callbacks.  The simulator uses them as preemption points and as a coverage measure.
rustc="$1"; shift
prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then
    case "$a" in
      ringrtc|mrp|glue) exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard -C codegen-units=16 ;;
    esac
    break
  fi
  prev="$a"
done
exec "$rustc" "$@"
