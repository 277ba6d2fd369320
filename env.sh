# Sourced by run.sh, replay.sh and setup.sh.
export HOME="${HOME:-/root}"
export PATH="/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:$PATH"
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOFLAGS=-buildvcs=false
export GOPATH="${GOPATH:-/root/go}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
unset GOOS GOARCH
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${REPO:-/repo}"

export SIM_REPO="$REPO" SIM_SRC="$VERIF/sim"

# build_sim DIR [race|gen|bare]: instrument the working tree of /repo and build the
# simulator into DIR (with "race" also a second binary with the race detector,
# with "gen" also the table generator on its simulated network, with "bare" the
# library as it is, without instrumentation)
build_sim() {
  local d="$1"
  mkdir -p "$d" || return 3
  ( cd "$VERIF/sim" &&
    go build -o "$d/instrument" ./cmd/instrument &&
    "$d/instrument" $([ "$2" != bare ] || echo -bare) -repo "$REPO" -out "$d" &&
    go build -overlay "$d/overlay.json" -o "$d/sim" ./cmd/sim &&
    { [ "$2" != race ] || CGO_ENABLED=1 go build -race -overlay "$d/overlay.json" -o "$d/sim-race" ./cmd/sim; } &&
    { [ "$2" != gen ] || { mkdir -p "$d/g" && "$d/instrument" -gen -repo "$REPO" -out "$d/g" &&
      go build -overlay "$d/g/overlay.json" -o "$d/gen" github.com/clipperhouse/uax29/v2/internal/gen; }; } ) || return 3
}
