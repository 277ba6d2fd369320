#!/bin/bash
# replay.sh FILE: replay a minimised failure on the current working tree of
# /repo; exit 1 and the VIOLATION line if it (still) fails.
. "$(dirname "$0")/env.sh"
file="$(readlink -f "$1")"
build="$VERIF/.build/replay-$$"
trap 'rm -rf "$build"' EXIT
kind=plain
grep -q '"property": "C11"' "$file" && kind=race
grep -qE '"property": "C1[67]"' "$file" && kind=gen
grep -q '"property": "C20"' "$file" && kind=bare
build_sim "$build" $kind || { echo "error: build failed" >&2; exit 3; }
export SIM_BUILD="$build"
"$build/sim" replay -file "$file"
