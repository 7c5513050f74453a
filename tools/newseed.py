#!/usr/bin/env python3
"""newseed.py ID PROPERTY PKGDIR: creates seeded/ID with the generic demo.sh and meta.json; the demo test is read from stdin."""
import sys, os, json
sid, prop, pkg = sys.argv[1:4]
needs, breaks = sys.argv[4], sys.argv[5]
d = "/verif/seeded/" + sid
os.makedirs(d, exist_ok=True)
open(d + "/demo_test.go", "w").write(sys.stdin.read())
open(d + "/demo.sh", "w").write('''#!/bin/sh
# Runs the demonstration test beside this file inside package %s of the working tree.
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
printf '{"Replace":{"%%s/%szz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$D" > "$T/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$T/overlay.json" -run '^TestDemo$' ./%s
rc=$?
rm -rf "$T"
exit $rc
''' % (pkg or ".", pkg + "/" if pkg else "", pkg))
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
