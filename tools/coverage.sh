#!/bin/bash
# usage: bash tools/coverage.sh [cases per property]
# Which statements of yot the workloads of the checks execute. Prints the share per package and the blocks never executed.
V=$(cd "$(dirname "$0")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
W=$(mktemp -d /tmp/yotcover.XXXXXXXX) || exit 2
chmod 755 "$W"
trap 'chmod -R u+rwX "$W" 2>/dev/null; rm -rf "$W"' EXIT
(cd "$V/harness" && go build -buildvcs=false -o "$W/harness" .) || exit 2
(cd "$REPO" && go build -buildvcs=false -cover -coverpkg=./... -o "$W/yot.bin" ./cmd/yot) || exit 2
mkdir -m 777 "$W/sum"
for i in $(seq -w 1 33); do
  mkdir -m 777 "$W/data" "$W/work"; chmod 777 "$W/data"; chmod 755 "$W/work"
  printf '#!/bin/sh\nGOCOVERDIR=%s exec %s "$@"\n' "$W/data" "$W/yot.bin" >"$W/yot"; chmod 755 "$W/yot"
  [ $i = 29 ] || "$W/harness" -prop "C$i" -tier quick -seed 1 -work "$W/work" -verif "$W" -yot "$W/yot" -n "${1:-150}" 2>&1 | tail -1 | cut -c1-160
  mkdir "$W/m"; (cd "$REPO" && go tool covdata merge -i="$W/data,$W/sum" -o "$W/m") >/dev/null 2>&1 || (cd "$REPO" && go tool covdata merge -i="$W/data" -o "$W/m")
  rm -rf "$W/sum" "$W/data" "$W/work"; mv "$W/m" "$W/sum"
done
cd "$REPO" && go tool covdata percent -i="$W/sum"
go tool covdata textfmt -i="$W/sum" -o "$W/text" && grep ' 0$' "$W/text" | sort -u
