export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=${VERIF_TARGET:-$here/target}
export RUSTFLAGS="--cap-lints=allow"
export CARGO_INCREMENTAL=0
