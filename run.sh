#!/bin/bash
# run.sh PROPERTY: decide one property on the current working tree of /repo.
# VERIF_SEED and VERIF_TIER (quick, thorough) select the runs.
. "$(dirname "$0")/env.sh"
id="$1"
build="$VERIF/.build/$id-$$"
trap 'rm -rf "$build"' EXIT
kind=plain
case "$id" in C11) kind=race ;; C16 | C17) kind=gen ;; C20) kind=bare ;; esac
build_sim "$build" $kind || { echo "error: build failed" >&2; exit 3; }
export SIM_BUILD="$build"
"$build/sim" check -prop "$id" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -verif "$VERIF"
