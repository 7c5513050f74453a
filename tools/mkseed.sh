#!/bin/sh
# mkseed.sh ID PROPERTY: takes the uncommitted change of the scratch copy /tmp/seed/repo
# as seeded/ID/patch.diff after checking build, stable tests and the demo there.
# The demo (demo.sh and files beside it) must already be in /verif/seeded/ID.
set -e
ID=$1
D=/verif/seeded/$ID
R=/tmp/seed/repo
cd $R
git diff > $D/patch.diff
test -s $D/patch.diff
export HOME=/root PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
go build ./... 
go test ./... -json 2>/dev/null | python3 -c '
import sys, json
st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
ok = set()
for l in sys.stdin:
    try: e = json.loads(l)
    except Exception: continue
    if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
miss = [s for s in st if s not in ok]
print("stable tests missing:", miss)
sys.exit(1 if miss else 0)'
if sh $D/demo.sh >/tmp/seed/demo_bug.txt 2>&1; then echo "DEMO PASSES WITH BUG"; exit 1; fi
git stash -q
if sh $D/demo.sh >/tmp/seed/demo_ok.txt 2>&1; then :; else echo "DEMO FAILS WITHOUT BUG"; cat /tmp/seed/demo_ok.txt; git stash drop -q; exit 1; fi
git stash drop -q
git status --short
echo "seed $ID ok"
