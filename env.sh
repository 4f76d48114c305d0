export HOME=/root PATH="/usr/local/sbin:/usr/local/bin:/root/.cargo/bin:${PATH:-/usr/bin:/bin}"
export RUSTUP_TOOLCHAIN=1.89.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR
