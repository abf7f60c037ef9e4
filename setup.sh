#!/bin/bash
# Builds every check binary against /repo's working tree.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
cd "$here/harness"
cargo build --offline --bins
cd "$here/ct"
CARGO_TARGET_DIR=$CARGO_TARGET_DIR/ct RUSTC_WRAPPER=$here/ct/rustc.sh cargo build --offline
