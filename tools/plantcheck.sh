#!/bin/bash
# plantcheck.sh ID...: confirms planted bugs in a scratch copy (build, stable
# tests, demo on the clean and the changed tree), then runs the property's
# quick check against /repo with the bug applied and undoes it.
V="$(cd "$(dirname "$0")/.." && pwd)"
for id in "$@"; do
	S="$V/seeded/$id"; prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$S/meta.json")
	W=$(mktemp -d /tmp/plant.XXXXXX)
	cp -a /repo "$W/repo"; mkdir "$W/d"; cp "$S"/* "$W/d"; rm -f "$W/d/patch.diff" "$W/d/meta.json"
	cd "$W/repo"
	bash "$W/d/demo.sh" >"$W/clean.log" 2>&1; c=$?
	if ! git apply "$S/patch.diff"; then echo "$id: patch does not apply"; rm -rf "$W"; continue; fi
	go build ./... >"$W/build.log" 2>&1; b=$?
	GOFLAGS=-mod=mod go test -vet=off -count=1 -cpu 1 ./... >"$W/test.log" 2>&1; t=$?
	bash "$W/d/demo.sh" >"$W/bad.log" 2>&1; d=$?
	cd /
	echo "$id ($prop): build=$b tests=$t demo clean=$c changed=$d"
	[ $c = 0 ] || tail -15 "$W/clean.log"
	[ $t = 0 ] || grep -- "--- FAIL" "$W/test.log"
	[ $d != 0 ] || tail -5 "$W/bad.log"
	grep -A3 -- "--- FAIL" "$W/bad.log" | head -5
	rm -rf "$W"
	if [ -z "$NOCHECK" ]; then
		git -C /repo apply "$S/patch.diff" && { timeout 900 bash "$V/run.sh" "$prop" quick ${CHECKFLAGS} >/tmp/plantcheck.out 2>&1; rc=$?; git -C /repo checkout -q -- .; echo "   check exit $rc: $(grep -a VIOLATION /tmp/plantcheck.out | head -3) $(tail -n1 /tmp/plantcheck.out)"; grep -a -m1 -B2 "^case" /tmp/plantcheck.out | head -c 400; echo; }
	fi
done
