#!/bin/bash
# Builds the harness against /repo's current tree and runs one property's check.
# usage: check.sh PROPERTY   (tier in VERIF_TIER)
#        check.sh --build
cd "$(dirname "$0")/harness" || exit 2
export CARGO_TARGET_DIR="$PWD/target"
mkdir -p target
fajt="fajt_ast fajt_common fajt_lexer fajt_parser fajt_codegen fajt_testing fajt_macros fajtmc"
# cargo decides by modification time; the content decides here.
sum=$(find /repo -name target -prune -o -name .git -prune -o -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 \
  | sort -z | xargs -0 sha256sum | sha256sum)
if [ -f target/repo.sum ] && [ "$sum" != "$(cat target/repo.sum)" ]; then
  cargo clean --release --offline --quiet $(for p in $fajt; do echo "-p $p"; done) 2>/dev/null
fi
if ! cargo build --release --offline --quiet 2>target/build.log; then
  cat target/build.log
  exit 2
fi
echo "$sum" >target/repo.sum
# The command line program, for the property about it.
if [ "$1" = --build ] || [ "$1" = C01 ]; then
  cli() { cargo "$@" --release --offline --quiet --manifest-path /repo/Cargo.toml --target-dir "$PWD/target/cli"; }
  if [ -f target/cli.sum ] && [ "$sum" != "$(cat target/cli.sum)" ]; then
    cli clean $(for p in ${fajt/fajtmc/fajt}; do echo "-p $p"; done) 2>/dev/null
  fi
  if ! cli build 2>target/cli.log; then
    cat target/cli.log
    exit 2
  fi
  echo "$sum" >target/cli.sum
fi
[ "$1" = --build ] && exit 0
exec ./target/release/fajtmc check "$1"
