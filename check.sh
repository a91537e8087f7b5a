#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Rebuilds the harness from /repo's working tree and searches for violations
# of one property. Exit 0: none found; 1: VIOLATION line printed; 3: trouble.
V=$(cd "$(dirname "$0")" && pwd)
P=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
case $TIER in
quick) SECS=${ZZSECS:-30} ;;
*) SECS=${ZZSECS:-600} ;;
esac
OUT=$V/build/check-$P
mkdir -p "$V/evidence" "$V/replays"
if ! "$V/build.sh" "$OUT" >"$V/build/$P.log" 2>&1; then
	cat "$V/build/$P.log" >&2
	echo "check $P: the tree does not build with the simulation harness" >&2
	exit 3
fi
export ZZFIXTURES=$V/fixtures/keys.gob.gz
"$OUT/harness" check -property "$P" -tier "$TIER" -seed "$SEED" -secs "$SECS" \
	-out "$V/evidence/$P.json" -known "$V/known_findings.jsonl" -replays "$V/replays"
