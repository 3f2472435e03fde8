#!/bin/bash
# check.sh build | check.sh <property> <quick|thorough>
#
# Builds the monitors against the current tree of /repo (always: whatever is left from an
# earlier build is thrown away if the sources differ from what it was built from) and runs one
# property. Exit 0: held, 1: violation, 3: no answer.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$HERE/target" CARGO_NET_OFFLINE=true MON_VERIF="$HERE"
unset RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS RUST_BACKTRACE

sources() {
    (cd /repo && find src Cargo.toml build.rs -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum
     cd "$HERE" && find harness/src harness/Cargo.toml probe/src probe/Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1
}

build() {
    mkdir -p "$CARGO_TARGET_DIR"
    exec 9>"$CARGO_TARGET_DIR/.mon-lock"
    flock 9
    local want
    want="$(sources)"
    if [ "$(cat "$CARGO_TARGET_DIR/.mon-built" 2>/dev/null)" != "$want" ] || [ ! -x "$CARGO_TARGET_DIR/debug/mon" ]; then
        rm -f "$CARGO_TARGET_DIR/.mon-built"
        (cd "$HERE/harness" && cargo clean -q --offline -p icalendar -p mon >/dev/null 2>&1
         cargo build -q --offline) >"$CARGO_TARGET_DIR/.mon-log" 2>&1 || {
            tail -40 "$CARGO_TARGET_DIR/.mon-log" >&2
            echo "ERROR: the monitors do not build against /repo" >&2
            exit 3
        }
        echo "$want" >"$CARGO_TARGET_DIR/.mon-built"
    fi
    flock -u 9
    exec 9>&-
}

case "${1:-}" in
build)
    build
    ;;
C[0-9][0-9])
    build
    exec "$CARGO_TARGET_DIR/debug/mon" run "$1" "${2:-${VERIF_TIER:-quick}}"
    ;;
*)
    echo "usage: check.sh build | check.sh <property> <quick|thorough>" >&2
    exit 3
    ;;
esac
