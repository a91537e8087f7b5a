#!/bin/bash
# Regenerates /verif/fixtures/keys.gob.gz (not repeatable: fresh key pairs).
set -e
source /opt/vp/env.sh
mkdir -p /verif/build
echo '{"Replace":{"/repo/zzgen/main.go":"/verif/tools/genkeys/main.go"}}' > /verif/build/gen.json
cd /repo && go build -overlay /verif/build/gen.json -o /verif/build/genkeys ./zzgen && /verif/build/genkeys /verif/fixtures/keys.gob.gz
