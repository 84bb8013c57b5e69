export HOME="${HOME:-/root}" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS=
export CARGO_TARGET_DIR="${VERIF_TARGET:-$VERIF_DIR/.build/target}"
