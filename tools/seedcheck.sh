#!/bin/bash
# seedcheck.sh ID...: runs the check of the property of each planted bug with the bug applied to /repo
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
    p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$V/seeded/$id/meta.json")
    git -C /repo apply "$V/seeded/$id/patch.diff" || continue
    out=$(cd "$V" && VERIF_SEED=${SEED:-1} timeout 900 ./run.sh check "${CHECK:-$p}" quick 2>&1); rc=$?
    git -C /repo checkout -q -- .
    echo "== $id ($p): exit $rc; $(echo "$out" | grep -E 'cases' | tail -1)"
    echo "$out" | grep -v cases | cut -c1-300 | tail -3
done
