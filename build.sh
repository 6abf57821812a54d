#!/bin/bash
# build.sh [harness|extra|all]: build the harness, the harness with the library's optional features
# (for C29, in a target folder of its own) and the command line tools (also the setup command: everything).
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
what="${1:-setup}"
case "$what" in harness|all|setup) cargo build --offline --release --manifest-path harness/Cargo.toml || exit 1 ;; esac
case "$what" in all|setup) cargo build --offline --manifest-path cli/Cargo.toml || exit 1 ;; esac
case "$what" in extra|setup) CARGO_TARGET_DIR="$PWD/target/extra" cargo build --offline --release --manifest-path harness/Cargo.toml --features extra || exit 1 ;; esac
