# sourced by run.sh and setup.sh: the builds the checks need, all from /repo's working tree
export XDG_CACHE_HOME="$CARGO_TARGET_DIR/cache"   # where Miri puts the standard library it builds
build_harness() {
  cargo build --offline --quiet --manifest-path "$here/harness/Cargo.toml"
}
# the language server itself (C29 talks to it over standard input and output)
build_server() {
  cargo build --offline --locked --quiet --manifest-path /repo/Cargo.toml -p wat_server --target-dir "$CARGO_TARGET_DIR/server"
}
# the harness with AddressSanitizer and the nightly compiler's checks for undefined behaviour (C30)
build_asan() {
  RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=address" cargo build --offline --quiet \
    --manifest-path "$here/harness/Cargo.toml" --target x86_64-unknown-linux-gnu --target-dir "$CARGO_TARGET_DIR/asan"
}
# (runs the program on no document, which builds everything)
build_miri() {
  RUSTUP_TOOLCHAIN=nightly MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation" \
    cargo miri run --offline --quiet --manifest-path "$here/miri/Cargo.toml" --target-dir "$CARGO_TARGET_DIR/miri" -- -
}
