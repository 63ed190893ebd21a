#!/bin/bash
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD" CARGO_NET_OFFLINE=true
. ./build_mc.sh
build_lib || exit 3
build_app || exit 3
build_real || exit 3
exit 0
