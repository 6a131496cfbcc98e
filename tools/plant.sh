#!/bin/bash
# usage: plant.sh <id> <property> <needs> <what_it_breaks> -- records the change made in the scratch copy /tmp/wt
# (cp -a /repo /tmp/wt) as seeded/<id>, after confirming that it builds, passes the tests, and that
# main.rs (read from stdin) fails with it and passes without it.
set -e
id="$1"; prop="$2"; needs="$3"; breaks="$4"
d=/verif/seeded/$id
mkdir -p "$d"
cat > "$d/main.rs"
git -C /tmp/wt diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
cat > "$d/demo.sh" <<'EOS'
#!/bin/bash
# builds main.rs against the crates in the current directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export RUSTUP_TOOLCHAIN=1.83.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR
d="$(mktemp -d)"
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
wat_parser = { path = "$repo/crates/parser" }
wat_syntax = { path = "$repo/crates/syntax" }
wat_formatter = { path = "$repo/crates/formatter" }
wat_service = { path = "$repo/crates/service" }
rowan = "0.15"
line-index = "0.1"
lsp-types = "0.97"
serde_json = "1.0"
EOT
export REPO_DIR="$repo"
cargo run --offline --quiet --manifest-path "$d/Cargo.toml"
EOS
python3 - "$d" "$prop" "$needs" "$breaks" <<'EOP'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
EOP
. /opt/vp/env.sh
export INSTA_WORKSPACE_ROOT=/tmp/wt
cd /tmp/wt
cargo test --workspace --all-features --no-fail-fast --offline --locked > /tmp/wt.log 2>&1 || { grep -E "^test .*FAILED|^error" /tmp/wt.log | head; echo "TESTS FAIL with $id"; git checkout -q -- .; exit 1; }
if bash "$d/demo.sh" > /tmp/demo1.log 2>&1; then echo "DEMO PASSES with $id"; git checkout -q -- .; exit 1; fi
tail -3 /tmp/demo1.log
git checkout -q -- .
bash "$d/demo.sh" > /tmp/demo0.log 2>&1 || { echo "DEMO FAILS on clean tree"; tail -20 /tmp/demo0.log; exit 1; }
echo "planted $id"
