#!/bin/bash
# seedtest.sh ID : checks a planted bug in a scratch copy (build, stable tests, demo before/after)
set -u
ID=$1; D=/verif/seeded/$ID
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cp -a "$D" "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
cd "$W/repo"; git checkout -q -- .
bash "$W/demo/demo.sh" >"$W/before" 2>&1; B=$?
git apply "$D/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
go build ./... >"$W/build" 2>&1 || { echo "$ID: build failed"; cat "$W/build"; exit 1; }
bash "$W/demo/demo.sh" >"$W/after" 2>&1; A=$?
go vet ./... >/dev/null 2>&1
go test ./... >"$W/test" 2>&1
echo "$ID: demo before=$B after=$A; failing tests: $(grep -E '^\s*--- FAIL' "$W/test" | awk '{print $3}' | tr '\n' ' ')"
[ $B = 0 ] || tail -20 "$W/before"
[ $A != 0 ] || tail -5 "$W/after"
grep -q 'build failed\|setup failed' "$W/after" && tail -20 "$W/after"
exit 0
