#!/bin/bash
# ./check.sh PROPERTY: builds /repo's working tree and decides one property.
# VERIF_SEED and VERIF_TIER (quick or thorough) are read from the environment.
V=$(cd "$(dirname "$0")" && pwd)
cd "$V" || exit 2
case "$1" in
C10 | C11 | C16 | C19) W=lib ;;
C15) W=derived ;;
C12) W=cli,lib ;;
*) W=cli ;;
esac
L=$V/target/libsim/x86_64-unknown-linux-gnu/debug
if ! ./build.sh $W; then
    # Types whose derived or generated code does not compile have no code to compare with their layouts.
    if [ $W = derived ] && grep -q -- '--> src/types.rs' target/libsim.log; then
        cp target/libsim.log target/derived.log
        if ./build.sh lib; then
            mkdir -p replays
            python3 -c 'import json,sys; json.dump({"property":"C15","class":"compile","detail":"derived or generated code does not compile","log":open("target/derived.log").read()[-20000:]},open("replays/C15-compile.json","w"),indent=1)'
            echo "VIOLATION property=C15 replay=$V/replays/C15-compile.json"
            exit 1
        fi
    fi
    echo "check: cannot build" >&2
    exit 2
fi
case $W in
lib) exec "$L/libsim" check "$1" ;;
derived) exec "$L/libsim-derived" check "$1" ;;
cli,lib)
    # Both simulators decide it: the program's names, then the library's.
    "$V/target/sim/debug/sim" check "$1"
    A=$?
    SIM_ADD=1 "$L/libsim" check "$1"
    B=$?
    [ $A = 1 ] || [ $B = 1 ] && exit 1
    [ $A = 0 ] && exit $B
    exit $A
    ;;
cli) exec "$V/target/sim/debug/sim" check "$1" ;;
esac
