#!/bin/bash
# setup.sh: check that the simulator builds offline and warm the build cache.
. "$(dirname "$0")/env.sh"
build="$VERIF/.build/setup-$$"
trap 'rm -rf "$build"' EXIT
build_sim "$build" || exit 3
SIM_BUILD="$build" "$build/sim" reftest

