#!/bin/bash
# run.sh ID TIER: build the harness against /repo's working tree and run one property's check.
# Exit 0 held, 1 violation (VIOLATION line), 2 no answer.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
mkdir -p target
bin=target/release/ssbh_verif
case "$1" in C09|C10|C30) what=all ;; C29) what=extra; bin=target/extra/release/ssbh_verif ;; *) what=harness ;; esac
./build.sh $what >target/build.log.$$ 2>&1 || { tail -n 60 target/build.log.$$ >&2; rm -f "target/build.log.$$"; echo "$1: the harness does not build against /repo" >&2; exit 2; }
rm -f "target/build.log.$$"
exec $bin check "$1" --tier "${2:-quick}"
