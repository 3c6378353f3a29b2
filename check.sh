#!/bin/bash
# usage: bash check.sh ID [options of the harness, e.g. --case N]
# Builds yot from /repo and the harness, and decides one property. Settings: VERIF_SEED, VERIF_TIER.
V=$(cd "$(dirname "$0")" && pwd)
ID=$1
shift
REPO=${VERIF_REPO:-/repo}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
W=$(mktemp -d /tmp/yotverif.XXXXXXXX) || exit 2
chmod 755 "$W"
trap 'chmod -R u+rwX "$W" 2>/dev/null; rm -rf "$W"' EXIT
fail() { echo "$1"; cat "$W/log" | tail -20; exit 2; }
(cd "$V/harness" && go build -buildvcs=false -o "$W/harness" .) >"$W/log" 2>&1 || fail "the harness does not build"
(cd "$REPO" && go build -buildvcs=false -o "$W/yot" ./cmd/yot) >"$W/log" 2>&1 || fail "yot does not build"
RACE=
if [ "$ID" = C15 ]; then
  # builds with delays before the statements, woven into copies of the current sources
  mkdir "$W/inst"
  OV=
  if "$W/harness" -instrument "$REPO" -work "$W/inst" >"$W/log" 2>&1 &&
    (cd "$REPO" && go build -buildvcs=false -overlay "$W/inst/overlay.json" -o "$W/yot-jitter" ./cmd/yot) >>"$W/log" 2>&1; then
    OV="-overlay $W/inst/overlay.json"
    RACE="-jitter $W/yot-jitter"
  else
    echo "note: the build with delays is not available: $(tail -3 "$W/log")"
  fi
  (cd "$REPO" && go build -race -buildvcs=false $OV -o "$W/yot-race" ./cmd/yot) >"$W/log" 2>&1 || fail "yot does not build with -race"
  RACE="$RACE -race $W/yot-race"
fi
mkdir "$W/work" && chmod 755 "$W/work"
"$W/harness" -prop "$ID" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -work "$W/work" -verif "$V" -yot "$W/yot" $RACE "$@"
