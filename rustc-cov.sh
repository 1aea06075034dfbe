#!/bin/bash
# RUSTC_WRAPPER for the `guided` build: adds coverage counters and comparison
# tracing to the crate under test only.
case " $* " in
*" --crate-name wavefront_obj "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
        -Cllvm-args=-sanitizer-coverage-trace-compares -Ccodegen-units=1
    ;;
esac
exec "$@"
