#!/bin/bash
# Rebuilds the simulation harness from /repo's current working tree.
# usage: build.sh OUTDIR   (OUTDIR/harness is the program)
set -e
V=$(cd "$(dirname "$0")" && pwd)
OUT=${1:-$V/build/out}
REPO=${ZZREPO:-/repo}
source /opt/vp/env.sh
mkdir -p "$OUT"
(cd "$V/sim/instrument" && GOFLAGS=-mod=mod go build -o "$OUT/instrument" .)
"$OUT/instrument" -repo "$REPO" -out "$OUT" -rt "$V/sim/rt" -harness "$V/sim/harness"
cd "$REPO" && go build -overlay "$OUT/overlay.json" -modfile "$OUT/go.mod" -o "$OUT/harness" ./zzsim/harness
