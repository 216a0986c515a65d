#!/bin/bash
# catch.sh ID... : applies each planted bug to /repo, runs the check of its property, undoes it
for ID in "$@"; do
 P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$ID/patch.diff || { echo "$ID no apply"; continue; }
 /verif/check.sh $P > /tmp/catch.$ID 2>&1; rc=$?
 git -C /repo checkout -- .
 echo "$ID rc=$rc $(grep -c ^FAILED /tmp/catch.$ID) failed; $(grep '^FAILED' /tmp/catch.$ID | head -2 | tr '\n' ' ') $(grep '^VIOLATION' /tmp/catch.$ID)"
done
