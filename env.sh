# toolchain used by /opt/vp/build.sh, offline
export RUSTUP_TOOLCHAIN=1.83.0-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
unset RUSTFLAGS
export CARGO_TARGET_DIR=/verif/target
