#!/bin/bash
# builds the contract verifier (bin/vgo) from vgo/ with the installed Go and the module cache, offline
V="$(cd "$(dirname "$0")" && pwd)"
. "$V/env.sh"
mkdir -p "$V/bin" "$V/evidence"
cd "$V/vgo" && go build -o "$V/bin/vgo.tmp.$$" . && mv "$V/bin/vgo.tmp.$$" "$V/bin/vgo"
