#!/bin/bash
# rustc wrapper: a scheduling point at each basic block of the code under test.
R=$1
shift
name= target=
for ((i = 1; i <= $#; i++)); do
    [ "${!i}" = --crate-name ] && { j=$((i + 1)); name=${!j}; }
    [ "${!i}" = --target ] && target=1
done
case $target$name in
1treeldr_layouts | 1treeldr | 1rdf_types | 1libsim | 1libsim_derived)
    exec "$R" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc ;;
*) exec "$R" "$@" ;;
esac
