#!/bin/bash
# Run with cwd = the repository. Builds demo.rs against it in a scratch crate.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$w/target" RUSTFLAGS="-Awarnings" CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
mkdir "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
hacspec = { path = "$repo/hacspec" }
secret_integers = { path = "$repo/secret-integers" }
abstract_integers = { path = "$repo/abstract-integers" }
hacspec-examples = { path = "$repo/spec-examples" }
hacspec-dev = { path = "$repo/hacspec-dev" }
serde = "1"
serde_json = "1"
rand = "0.7"
num = "0.2"
T
cd "$w" || exit 2
if [ -n "$COMPILE_ONLY" ]; then
  # The program must not compile.
  if cargo build --offline -q 2> "$w/err"; then echo "the program compiled"; exit 1; fi
  grep -q 'error\[E' "$w/err" || { cat "$w/err"; exit 2; }
  exit 0
fi
cargo build --offline -q || exit 2
cd "$w" && timeout 200 "$w/target/debug/demo"
