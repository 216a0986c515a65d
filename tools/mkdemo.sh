#!/bin/bash
# mkdemo.sh ID PKG TESTFILE... : demo.sh running the given test files (copied beside it) through an overlay
ID=$1; PKG=$2; shift 2
D=/verif/seeded/$ID; mkdir -p $D
n=0
for f in "$@"; do n=$((n+1)); sed 's/TestVerif[A-Z0-9]*/TestDemo/; 1s#^// pkg:.*#// demonstration#' "$f" > $D/demo$n.go.txt; done
cat > $D/demo.sh <<'X'
#!/bin/bash
# Runs the demonstration tests beside this file inside the package, through an overlay.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
R=""; for f in "$D"/demo*.go.txt; do R="$R${R:+,}\"$PWD/@PKG@/zz_$(basename "$f" .go.txt)_test.go\":\"$f\""; done
printf '{"Replace":{%s}}' "$R" > "$T/o.json"
go test -overlay "$T/o.json" -vet=off -count=1 -timeout 200s -run '^TestDemo' ./@PKG@
X
sed -i "s#@PKG@#$PKG#g" $D/demo.sh; chmod +x $D/demo.sh
