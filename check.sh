#!/bin/bash
# check.sh PROPERTY [--replay FILE]: builds the harness against /repo's working tree and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
. "$here/tools/env.sh"
id="$1"
build() { # crate-dir target-dir args...
    local dir="$1" target="$2"; shift 2
    local log; log="$(mktemp)"
    if ! (cd "$dir" && CARGO_TARGET_DIR="$target" cargo build --offline --locked "$@") >"$log" 2>&1; then
        grep -v '^warning' "$log" | tail -60 >&2
        rm -f "$log"
        echo "[$id] the harness does not build against /repo" >&2
        exit 2
    fi
    rm -f "$log"
}
case "$id" in
C17 | C18)
    build "$here/ecc-rust" "$here/target/ecc-rust"
    build "$here/ecc" "$here/target/ecc"
    export VH_ECC_RUST="$here/target/ecc-rust/debug/ecc-rust"
    exec "$here/target/ecc/debug/ecc-check" "$@"
    ;;
C20 | C21 | C23 | C24)
    build "$here/macros" "$here/target/macros"
    exec "$here/target/macros/debug/macro-check" "$@"
    ;;
*)
    build "$here/harness" "$here/target/harness"
    exec "$here/target/harness/debug/check" "$@"
    ;;
esac
