#!/bin/bash
# usage: check.sh PROPERTY [thorough]   (run from anywhere; verifies /repo's working tree)
V="$(cd "$(dirname "$0")" && pwd)"
. "$V/env.sh"
[ -x "$V/bin/vgo" ] && [ -z "$(find "$V/vgo" -newer "$V/bin/vgo" -name '*.go' -print -quit)" ] || "$V/setup.sh" >&2 || { echo "setup failed" >&2; exit 3; }
T=""
if [ "$2" = thorough ] || [ "$VERIF_TIER" = thorough ]; then T="-thorough"; fi
cd /repo && exec "$V/bin/vgo" -repo /repo -verif "$V" -contracts "$V/contracts" $T check "$1"
