# sourced by the build and check scripts
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG TRYBUILD CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export RUSTFLAGS="--cfg moka_mc -Awarnings"
export CARGO_TARGET_DIR=/verif/target/outer
