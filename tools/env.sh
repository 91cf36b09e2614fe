# Sourced by every command: an offline, deterministic build environment.
VERIF_ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd); export VERIF_ROOT
export RUSTUP_TOOLCHAIN=1.91.1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$VERIF_ROOT/target RUSTC_WRAPPER= RUSTFLAGS= RUST_BACKTRACE=0
export PATH=/root/.cargo/bin:$PATH
