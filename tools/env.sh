# Sourced by every check: the toolchain and flags the repository builds with, offline.
export HOME="${HOME:-/root}"
[ -d /root/.cargo/bin ] && export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN="${VERIF_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR
export RUSTFLAGS="-Alegacy_derive_helpers" RUSTDOCFLAGS="-Alegacy_derive_helpers"
export RUSTFMT="/root/.rustup/toolchains/$RUSTUP_TOOLCHAIN/bin/rustfmt"
