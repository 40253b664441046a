export HOME=/root PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-2026-01-22 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_TARGET_DIR=/verif/target CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never RUST_BACKTRACE=0
unset LD_LIBRARY_PATH RUSTFLAGS
mkdir -p /verif/target
