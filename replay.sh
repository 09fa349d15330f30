#!/bin/bash
# ./replay.sh FILE: builds /repo's working tree and replays a recorded violation (exit 1 if it occurs again).
V=$(cd "$(dirname "$0")" && pwd)
F=$(readlink -f "$1") || exit 2
cd "$V" || exit 2
L=$V/target/libsim/x86_64-unknown-linux-gnu/debug
case $(python3 -c 'import json,sys; j=json.load(open(sys.argv[1])); print(j["property"], j["class"], (j.get("case") or {}).get("kind"))' "$F") in
"C15 compile "*) exec ./check.sh C15 ;;
"C15 "*) ./build.sh derived || exit 2; exec "$L/libsim-derived" replay "$F" ;;
"C10 "* | "C11 "* | "C16 "* | "C12 "*names) ./build.sh lib || exit 2; exec "$L/libsim" replay "$F" ;;
*) ./build.sh cli || exit 2; exec "$V/target/sim/debug/sim" replay "$F" ;;
esac
