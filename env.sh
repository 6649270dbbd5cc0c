# Sourced by the check scripts: offline, pinned toolchain, no inherited flags.
export PATH=/opt/vp/tools/bin:/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.99.1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR RUSTC_WRAPPER RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
unset CARGO_PROFILE_DEV_DEBUG CARGO_PROFILE_DEV_PANIC
