#!/bin/bash
# RUSTC_WRAPPER: builds nom_sparql, and only it, with coverage counters and
# comparison hooks (SanitizerCoverage); src/cov.rs receives them.
case " $* " in
*" --crate-name nom_sparql "*)
    exec "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
        -C llvm-args=-sanitizer-coverage-inline-8bit-counters -C llvm-args=-sanitizer-coverage-trace-compares ;;
esac
exec "$@"
