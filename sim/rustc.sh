#!/bin/bash
# Stands before rustc: in the library and in calls/ the compiler adds a call at every edge between
# basic blocks and at every load and store, at which the simulated scheduler may switch threads.
prev=
for a in "$@"; do
    if [ "$prev" = --crate-name ] && { [ "$a" = kpdb ] || [ "$a" = kpcalls ]; }; then
        exec "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
            -C llvm-args=-sanitizer-coverage-trace-pc-guard \
            -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores
    fi
    prev=$a
done
exec "$@"
