export CARGO_TARGET_DIR="${VERIF_ROOT:-/verif}/target"
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
mkdir -p "$CARGO_TARGET_DIR"
