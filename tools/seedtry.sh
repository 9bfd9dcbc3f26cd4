#!/bin/bash
# seedtry.sh ID...: confirms planted bugs in a scratch copy of /repo (build, tests, demo with and without)
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
W=/tmp/seedwork
mkdir -p $W
[ -d $W/repo ] || cp -a /repo $W/repo
cd $W/repo || exit 2
. <(grep -v -e "^cd " /opt/vp/env.sh)
git fetch -q /repo HEAD && git checkout -q -f --detach FETCH_HEAD
clean=
for id in "$@"; do
    D=$V/seeded/$id
    rm -rf $W/demo; cp -a $D $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
    git checkout -q -f .
    cargo build --workspace --offline --locked -q 2>/dev/null || { echo "$id: clean tree does not build"; exit 2; }
    timeout 300 bash $W/demo/demo.sh >$W/demo.clean 2>&1; a=$?
    git apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
    cargo build --workspace --offline --locked -q 2>$W/build.log || { echo "$id: DOES NOT BUILD"; tail -5 $W/build.log; continue; }
    timeout 300 bash $W/demo/demo.sh >$W/demo.bug 2>&1; b=$?
    t=$(TMPDIR=$(mktemp -d -p $W) cargo nextest run --workspace --offline --locked --no-fail-fast 2>&1 | grep -E "Summary|FAIL|TIMEOUT" | tr '\n' ' ')
    echo "$id: demo clean=$a (want 0) bug=$b (want not 0) tests: $t"
    [ $a = 0 ] || tail -5 $W/demo.clean
    [ $b != 0 ] && tail -2 $W/demo.bug
    git checkout -q -f .
done
