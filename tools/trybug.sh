#!/bin/bash
# tools/trybug.sh <seed-id> [property...]: run checks on a scratch copy with the planted change
id=$1; shift; W=/tmp/trybug_$id
P=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
rm -rf "$W"; mkdir -p "$W"; git -C /repo archive HEAD | tar -x -C "$W"
( cd "$W" && git init -q . && git apply "/verif/seeded/$id/patch.diff" ) || { echo "$id no apply"; exit 2; }
for p in $P; do KMCPY_REPO=$W /verif/check.sh $p quick > /tmp/trybug_$id.$p.out 2>&1; echo "$id $p rc=$? $(grep -m1 VIOLATION /tmp/trybug_$id.$p.out) | $(head -1 /tmp/trybug_$id.$p.out | cut -c1-160)"; done
rm -rf "$W"
