#!/bin/bash
# Usage: run_check.sh PROPERTY   (VERIF_TIER=quick|thorough)
# Rebuilds the checkers from /repo's current working tree and runs the one that decides PROPERTY.
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD" CARGO_NET_OFFLINE=true
ID="$1"
. ./build_mc.sh || exit 3
case "$ID" in
C15|C16|C17|C18|C19|C20|C21|C24|C25|C26|C27|C30) build_app || exit 3; build_real || exit 3; exec ./app/target/release/appcheck "$ID" ;;
C22|C28|C29) build_app || exit 3; exec ./app/target/release/appcheck "$ID" ;;
*) build_lib || exit 3; exec ./mc/target/release/libcheck "$ID" ;;
esac
