#!/bin/bash
# usage: trybug.sh ID [tests] [PROP ...]
# In scratch copies of /repo: the demonstration passes on the unchanged tree and
# fails with the patch; with "tests" the stable tests are run with the patch;
# then the quick checks of the property (or those given) are run on the copy.
V=$(cd "$(dirname "$0")/.." && pwd)
ID=$1; shift
T=/tmp/trybug.$ID
rm -rf "$T"; mkdir -p "$T"
cp -a /repo "$T/r"
cd "$T/r" || exit 1
R=""
"$V/seeded/$ID/demo.sh" >"$T/demo0" 2>&1 && R="$R demo-clean:ok" || R="$R demo-clean:FAILS"
git apply "$V/seeded/$ID/patch.diff" || { echo "$ID: does not apply"; exit 1; }
source /opt/vp/env.sh
go build ./... >"$T/build" 2>&1 && R="$R build:ok" || R="$R build:FAILS"
"$V/seeded/$ID/demo.sh" >"$T/demo1" 2>&1 && R="$R demo-patched:PASSES" || R="$R demo-patched:ok"
if [ "$1" = tests ]; then
	shift
	go test -json -vet=off -count=1 -timeout 12m -skip '^TestReal' ./... >"$T/tests.json" 2>/dev/null
	R="$R tests:$(python3 - "$T/tests.json" <<'P'
import json,sys
ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get("Action")=="pass" and e.get("Test"): ok.add(e["Package"]+"/"+e["Test"])
miss=[t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]
print("ok" if not miss else "FAIL:"+",".join(miss))
P
)"
fi
PROPS=${*:-$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")}
ZZREPO=$T/r "$V/build.sh" "$T/b" >"$T/hbuild" 2>&1 || R="$R harness:FAILS"
export ZZFIXTURES=$V/fixtures/keys.gob.gz
for p in $PROPS; do
	"$T/b/harness" check -property "$p" -tier quick -seed 1 -secs "${ZZSECS:-30}" -out "$T/ev.json" \
		-known "$V/known_findings.jsonl" -replays "$T/replays" >"$T/check.$p" 2>&1
	c=$?
	R="$R $p:$([ $c = 1 ] && grep -q "VIOLATION property=$p" "$T/check.$p" && echo caught || echo "MISSED($c)")"
done
echo "$ID:$R"
rm -rf "$T/r" "$T/b"
