#!/bin/bash
# check.sh <property> [--replay FILE | --only SUB]
# Builds the harness binary that decides <property> against /repo's working tree and runs it.
# Exit 0: held on everything explored; 1: violation (VIOLATION line); anything else: error of the check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?property id}
case "$id" in
  C01|C02|C03|C04) bin=ints ;;
  C05) bin=secrecy ;;
  C06|C07) bin=absint ;;
  C08|C09) bin=natmod ;;
  C10|C11) bin=machine ;;
  C12|C13|C14|C15) bin=containers ;;
  C16|C17|C18) bin=poly ;;
  C19|C20|C21|C22) bin=hashes ;;
  C23|C24|C25) bin=chacha ;;
  C26|C27) bin=aes ;;
  C28|C29) bin=curves ;;
  C30) bin=vectors ;;
  C31) bin=effects ;;
  C32) bin=ct ;;
  C33) bin=random ;;
  C34) bin=standalone ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
export VERIF_DIR=$here VERIF_REPO=/repo VERIF_BIN=$bin
. "$here/env.sh"
dir=$here/harness
if [ "$bin" = ct ]; then
  # the code under observation is compiled with tracing, in a target directory of its own
  dir=$here/ct
  export CARGO_TARGET_DIR=$CARGO_TARGET_DIR/ct RUSTC_WRAPPER=$here/ct/rustc.sh
fi
log=$(mktemp)
if ! (cd "$dir" && cargo build --offline --quiet --bin "$bin") >"$log" 2>&1; then
  echo "build failed:" >&2; tail -n 60 "$log" >&2; rm -f "$log"; exit 2
fi
rm -f "$log"
export PATH
exec "$CARGO_TARGET_DIR/debug/$bin" "$@"
