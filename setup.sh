#!/bin/bash
# Builds the monitors (both configurations) from the committed files and /repo's tree.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" WANT_REL=1 WANT_SAN=1
. ./build.sh
