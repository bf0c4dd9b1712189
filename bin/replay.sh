#!/bin/sh
# replay.sh <replay file>: runs a reported counterexample against the real
# code in /repo; prints what it observes and ASSERT-FAIL, PANIC or DONE.
set -e
f=$(readlink -f "$1")
cd "$(dirname "$0")/../harness"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
python3 - "$f" "$d" <<'P'
import json, sys
r = json.load(open(sys.argv[1]))
json.dump(r["inputs"], open(sys.argv[2] + "/in.json", "w"))
open(sys.argv[2] + "/h", "w").write(r["harness"])
open(sys.argv[2] + "/race", "w").write("-race" if r["kind"] == "frozen" else "")
P
race=$(cat "$d/race")
CGO_ENABLED=1 go build $race -tags ne -o "$d/replay" ./cmd/replay
cd "$d"
[ -n "$race" ] && export VF_RACE=1
timeout 60 ./replay "$(cat "$d/h")" "$d/in.json" $VERIF_REPLAY_TIER
