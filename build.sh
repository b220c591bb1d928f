#!/bin/bash
# build.sh TARGET: builds the simulated binary TARGET (handlers, web, suites) from /repo's current tree.
# Prints nothing but errors; the binary is /verif/.build/zsim_TARGET.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOWORK=off
OUT=$VERIF/.build
mkdir -p "$OUT"
(cd "$VERIF/tools" && GOFLAGS= go build -o "$OUT/prep" ./prep) || exit 2
"$OUT/prep" -repo /repo -verif "$VERIF" -out "$OUT" -goroot "$(go env GOROOT)" || exit 2
cd /repo || exit 2
CGO_ENABLED=1 go build -race -overlay "$OUT/overlay.json" -modfile "$OUT/go.mod" \
  -gcflags=github.com/madkins23/go-slog/internal/zsim=-race=false \
  -o "$OUT/zsim_$1" "./cmd/zsim_$1" || exit 2
