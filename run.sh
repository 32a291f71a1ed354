#!/bin/bash
# run.sh setup | run.sh <PROPERTY> quick|thorough [flags] | run.sh replay FILE
# Builds the harness against /repo's current working tree and runs one check.
# Exit: 0 held, 1 violated (VIOLATION line), 2 the check itself failed.
V="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1 GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS="-mod=mod" GOWORK=off
[ -n "$HOME" ] || export HOME=/root
export TMPDIR="${TMPDIR:-/tmp}"
BIN="$(mktemp -d "$TMPDIR/verif-build.XXXXXX")" || exit 2
trap 'rm -rf "$BIN"' EXIT
build() {
	(cd "$V/harness" && go test -c -tags verif -o "$BIN/harness.test" .) >"$BIN/build.log" 2>&1 || {
		echo "cannot build the harness against /repo:" >&2; tail -n 40 "$BIN/build.log" >&2; exit 2
	}
}
# C25 also runs the real soju executable
soju() {
	(cd /repo && GOFLAGS=-mod=readonly go build -o "$BIN/soju" ./cmd/soju) >"$BIN/build.log" 2>&1 || {
		echo "cannot build soju:" >&2; tail -n 40 "$BIN/build.log" >&2; exit 2
	}
	export VERIF_SOJU="$BIN/soju"
}
case "$1" in
setup) build; echo "harness built"; exit 0;;
replay) build; f="$(realpath "$2")"; p="$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$f")"
	if [ "$p" = C25 ]; then soju; fi
	cd "$BIN" && "$BIN/harness.test" -prop "$p" -replay "$f" -trace; exit $?;;
esac
id="$1"; tier="${2:-quick}"; shift 2
build
if [ "$id" = C25 ]; then soju; fi
mkdir -p "$V/evidence" "$V/replays"
cd "$BIN" && "$BIN/harness.test" -prop "$id" -tier "$tier" -out "$V" "$@"
rc=$?
case $rc in 0|1) exit $rc;; *) exit 2;; esac
