#!/bin/bash
# Builds the harness once, so that a broken toolchain shows before the first check.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/tools/env.sh"

status=0
for crate in harness ecc-rust ecc macros; do
    (cd "$here/$crate" && CARGO_TARGET_DIR="$here/target/$crate" cargo build --offline --locked 2>&1 | tail -3; exit "${PIPESTATUS[0]}") || status=1
done
exit $status
