#!/bin/bash
# RUSTC_WRAPPER: basic-block callbacks in rx509 only.
rustc="$1"
shift
name=
prev=
for a in "$@"; do
    [ "$prev" = --crate-name ] && name="$a"
    prev="$a"
done
if [ "$name" = rx509 ]; then
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard
fi
exec "$rustc" "$@"
