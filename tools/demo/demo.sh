#!/bin/bash
# Runs the demonstration beside this script against the soju tree in the
# current directory. Exit 0: the property holds.
D="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1 PATH="/usr/local/bin:/usr/bin:/bin:$PATH"
T="$(mktemp -d)" || exit 2
trap 'rm -rf "$T"' EXIT
PKG="$(cat "$D/pkg" 2>/dev/null || echo .)"
python3 - "$D" "$R" "$PKG" > "$T/overlay.json" <<'P'
import json,os,sys
d,r,p=sys.argv[1:]
print(json.dumps({"Replace":{os.path.normpath(os.path.join(r,p,f)):os.path.join(d,f) for f in os.listdir(d) if f.endswith("_test.go")}}))
P
go test -overlay "$T/overlay.json" -count=1 -vet=off -timeout 200s -run '^TestDemo' "./$PKG"
