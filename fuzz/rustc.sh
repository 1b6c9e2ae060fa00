#!/bin/bash
# rustc for the fuzz target: coverage counters and traced comparisons in the code under
# test and in the crate that instantiates its generic functions, nowhere else.
name=
for ((i = 1; i <= $#; i++)); do
    [ "${!i}" = --crate-name ] && { j=$((i + 1)); name=${!j}; break; }
done
case $name in
barcoders | vharness)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 \
        -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table \
        -Cllvm-args=-sanitizer-coverage-trace-compares ;;
*) exec "$@" ;;
esac
