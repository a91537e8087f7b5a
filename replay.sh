#!/bin/bash
# usage: replay.sh FILE    replays a recorded violation against /repo's tree
V=$(cd "$(dirname "$0")" && pwd)
"$V/build.sh" "$V/build/replay" >/dev/null || exit 3
export ZZFIXTURES=$V/fixtures/keys.gob.gz
"$V/build/replay/harness" replay "$1"
