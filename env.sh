# Sourced by the scripts of /verif: the toolchain /repo pins, offline, own target directory.
export HOME=/root LANG=C.UTF-8
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.81.0-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= SKIP_WASM_BUILD=1 CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=/verif/target
export RUST_LOG=off RUST_BACKTRACE=0
