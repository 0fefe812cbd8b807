#!/bin/bash
# usage: check.sh <property> <quick|thorough> [--case N] [--cases N] [--secs N]
# Rebuilds the harness (and with it /repo's crates) from /repo's working tree and runs one monitor.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
case "$1" in C01|C27)  export WANT_REL=1;; C28) export WANT_SAN=1;; esac
. ./build.sh || { echo "the harness does not build" >&2; exit 2; }
exec "$CARGO_TARGET_DIR/debug/mon" "$@"
