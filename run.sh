#!/bin/bash
# usage: run.sh <property>; decides one property of /repo's working tree (VERIF_TIER quick|thorough)
# exit 0 held, 1 violated (VIOLATION line), anything else: the check itself could not run
cd "$(dirname "$(realpath "$0")")" || exit 3
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTFLAGS RUSTC_WRAPPER
mkdir -p out evidence
build() {
  cargo build --release --offline --manifest-path mc/Cargo.toml > out/build-$$.log 2>&1 ||
    { cat out/build-$$.log >&2; rm -f "$PWD/out/build-$$.log"; echo "the exploration engine does not build" >&2; exit 2; }
  rm -f "$PWD/out/build-$$.log"
}
# the same without optimisation, for what only shows there (depth of recursion)
plain() {
  cargo build --offline --manifest-path mc/Cargo.toml > out/build-$$.log 2>&1 ||
    { cat out/build-$$.log >&2; rm -f "$PWD/out/build-$$.log"; echo "the exploration engine does not build" >&2; exit 2; }
  rm -f "$PWD/out/build-$$.log"
}
# the same as users ship it, without overflow checks and debug assertions
shipped() {
  cargo build --profile shipped --offline --manifest-path mc/Cargo.toml > out/shipped-$$.log 2>&1 ||
    { cat out/shipped-$$.log >&2; rm -f "$PWD/out/shipped-$$.log"; echo "the exploration engine does not build" >&2; exit 2; }
  rm -f "$PWD/out/shipped-$$.log"
}
both() { shipped & build; wait $! || exit 2; }
# C13's schedule explorer; the check says so in its evidence when this cannot be built
conc() { mkdir -p out/conc; bash conc/build.sh "$PWD/out/conc"; }
case "$1" in
  setup) both; plain; exit 0 ;;
  C13) conc & build; wait; exec mc/target/release/mc check C13 ;;
  C02) both; plain; exec mc/target/release/mc check C02 ;;
  C25) build; plain; exec mc/target/release/mc check "$1" ;;
  C15|C16|C17|C18|C20|C23|C24|C26|C27) [ "$1" = C15 ] && build; exec python3 gen/checks.py "$1" ;;
  *) both; exec mc/target/release/mc check "$1" ;;
esac
