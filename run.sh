#!/bin/bash
# usage: run.sh check ID [quick|thorough] | replay FILE | build [all]
# Builds the harness (and, for the checks that need them, the ced program and
# the shared library) from /repo's current working tree, then runs it.
set -u
V=$(cd "$(dirname "$0")" && pwd)
H=$V/harness
T=$H/target
export CED_VERIF_DIR=$V
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUST_LOG CED_BIN
FLAGS_ON="--cfg ced_verif --cfg ced_verif_parts -Awarnings"
FLAGS_HOOK="--cfg ced_verif -Awarnings"
FLAGS_OFF="-Awarnings"
mkdir -p "$T"

sources() {
    (cd /repo && find Cargo.toml Cargo.lock core remote remote-ffi remote-ffi-gen \
        -type f ! -path '*/target/*' ! -path remote-ffi/src/ffi.rs ! -path remote-ffi/include/bindings.h \
        -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
}

stamp() { # forget what was built from other sources: cargo only looks at times
    local dir=$1 now
    now=$(sources)
    if [ "$(cat "$dir/.sources" 2>/dev/null)" != "$now" ]; then
        shift
        rm -f "$dir/.sources"
        "$@" >/dev/null 2>&1
        mkdir -p "$dir"
        echo "$now" > "$dir/.sources.new"
    fi
}
stamped() { [ -e "$1/.sources.new" ] && mv "$1/.sources.new" "$1/.sources"; return 0; }

build_harness() {
    stamp "$T" cargo clean --offline --manifest-path "$H/Cargo.toml" --target-dir "$T" -p ced -p ced-remote -p remote-ffi-gen
    local flags ok=
    # the hooks may not fit the current tree: everything but C03 can do without
    for flags in "$FLAGS_ON" "$FLAGS_HOOK" "$FLAGS_OFF"; do
        if RUSTFLAGS=$flags cargo build --offline --locked -q --manifest-path "$H/Cargo.toml" --target-dir "$T" 2>"$T/build.log"; then
            ok=1
            break
        fi
    done
    if [ -z "$ok" ]; then
        cat "$T/build.log" >&2
        echo "error: the harness does not build"
        exit 2
    fi
    if [ "$flags" = "$FLAGS_HOOK" ]; then
        echo "note: built without the rendering of parts"
    elif [ "$flags" = "$FLAGS_OFF" ]; then
        echo "note: built without the hooks"
    fi
    stamped "$T"
}

build_repo() {
    local R=$T/repo
    stamp "$R" cargo clean --offline --manifest-path /repo/Cargo.toml --target-dir "$R" -p ced -p ced-remote -p remote-ffi -p remote-ffi-gen
    if ! RUSTFLAGS=$FLAGS_OFF cargo build --offline --locked -q --manifest-path /repo/Cargo.toml --target-dir "$R" -p ced -p remote-ffi 2>"$T/build3.log"; then
        cat "$T/build3.log" >&2
        echo "error: /repo does not build"
        exit 2
    fi
    stamped "$R"
}

needs_repo() { case $1 in C11|C18|C23|C24) return 0 ;; esac; return 1; }

exec 9>"$T/.lock"
flock 9
case ${1:-} in
build)
    build_harness
    build_repo
    exit 0
    ;;
check)
    id=${2:?}
    build_harness
    needs_repo "$id" && build_repo
    ;;
replay)
    id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "${2:?}") || exit 2
    build_harness
    needs_repo "$id" && build_repo
    ;;
*)
    sed -n 2,4p "$0"
    exit 2
    ;;
esac
flock -u 9
exec 9>&-
export CED_VERIF_REPO_BIN=$T/repo/debug
export CED_VERIF_RUSTC=$(rustc --print sysroot)/bin/rustc
exec "$T/debug/ced-verif" "$@"
