#!/bin/bash
# build.sh OUT.so: builds /repo's program for the Solana VM, the way
# /opt/vp/sbpf/build-sbf.sh does, but writing only under /verif/target.
out=$1
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=nightly
export RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=/verif/target/sbf RUST_BACKTRACE=0
export __CARGO_TESTS_ONLY_SRC_ROOT=/opt/vp/sbpf/rustsrc/library RUSTC_BOOTSTRAP_SYNTHETIC_TARGET=1
export CARGO_PROFILE_RELEASE_OPT_LEVEL=s CARGO_PROFILE_RELEASE_PANIC=abort
export RUSTFLAGS="-C target-cpu=v2 -C passes=lower-atomic"
unset LD_LIBRARY_PATH
mkdir -p "$CARGO_TARGET_DIR"
rm -f "$out"
# never trust timestamps
rm -rf "$CARGO_TARGET_DIR"/sbpf-solana/release/build/spl-token-wrap \
  "$CARGO_TARGET_DIR"/sbpf-solana/release/.fingerprint/spl-token-wrap-*
cd /repo || exit 1
if ! cargo rustc --release --offline --locked --lib --target /opt/vp/sbpf/sbpf-solana.json \
  -Zjson-target-spec -Zbuild-std=std,panic_abort -Zbuild-std-features= --crate-type cdylib -p spl-token-wrap \
  -- -C linker="$here/linker.sh" > "$CARGO_TARGET_DIR/build.log" 2>&1; then
  grep -E '^error' -A9 "$CARGO_TARGET_DIR/build.log" | cut -c1-300 | head -40
  exit 1
fi
cp "$CARGO_TARGET_DIR/sbpf-solana/release/libspl_token_wrap.so" "$out"
