export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.76.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTC_WRAPPER RUSTFLAGS CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
