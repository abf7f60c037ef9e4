#!/bin/bash
# Compiler wrapper: records edges, array indices and divisors in the code under observation only.
rustc=$1; shift
name=
prev=
for a in "$@"; do [ "$prev" = --crate-name ] && name=$a; prev=$a; done
case "$name" in
  ctops|secret_integers|hacspec|hacspec_examples)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-geps \
      -Cllvm-args=-sanitizer-coverage-trace-divs -Ccodegen-units=1 ;;
esac
exec "$rustc" "$@"
