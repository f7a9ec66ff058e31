#!/bin/bash
# usage: tools/seed.sh <bug-id> ...   verifies planted changes in a scratch copy of /repo:
# builds, passes the stable tests, demo passes without and fails with the patch; then runs the property's check on it.
V=$(cd "$(dirname "$0")/.."; pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
for id in "$@"; do
 B=$V/seeded/$id; W=$(mktemp -d /tmp/seedXXXX); cp -a /repo/. $W/
 T=$(mktemp -d /tmp/demoXXXX); cp $B/* $T/; rm -f $T/*.diff $T/meta.json
 r=""
 (cd $W && bash $T/demo.sh >$T/log0 2>&1) && r="$r demo-clean:ok" || { r="$r demo-clean:FAIL"; tail -5 $T/log0; }
 (cd $W && git apply $B/patch.diff) || { echo "$id: patch does not apply"; rm -rf $W $T; continue; }
 (cd $W && go build ./... ) && r="$r build:ok" || r="$r build:FAIL"
 (cd $W && bash $T/demo.sh >$T/log1 2>&1) && r="$r demo-bug:NOT-DETECTED" || r="$r demo-bug:ok"
 if [ -z "$NOTEST" ]; then
 (cd $W && go test -json -vet=off -count=1 ./... > $T/t.json 2>/dev/null)
 python3 - $T/t.json <<'P' || true
import json,sys
res={}
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except: continue
    if e.get("Test") and e.get("Action") in("pass","fail","skip"): res[e["Package"]+"/"+e["Test"]]=e["Action"]
st=json.load(open("/opt/vp/BASELINE.json"))["stable"]
bad=[s for s in st if res.get(s)!="pass"]
print("   stable tests failing:",bad) if bad else None
P
 fi
 p=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
 mkdir -p $T/v; cp $V/known_findings.txt $T/v/ 2>/dev/null
 out=$($V/.build/sa check -repo $W -verif $T/v $p 2>&1); rc=$?
 echo "$id:$r check($p)=$rc"; echo "$out" | head -${LINES_MAX:-2} | cut -c1-260
 rm -rf "$W" "$T"
done
