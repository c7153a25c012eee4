#!/bin/bash
# Adds SanitizerCoverage callbacks (every edge, load and store) to the library under test only.
rustc="$1"; shift
prev=""; name=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; fi
  prev="$a"
done
if [ "$name" = iec61131std ]; then
  exec "$rustc" "$@" -C passes=sancov-module \
    -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc \
    -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores
fi
exec "$rustc" "$@"
