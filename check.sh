#!/bin/bash
# check.sh ID [quick|thorough]: builds from /repo's working tree and runs the check of one property.
# Exit 0: it held on everything explored; 1: violation; anything else: the check itself failed.
cd "$(dirname "$0")" || exit 3
export RUST_BACKTRACE=0 VERIF_ROOT=$PWD
./build.sh || exit 3
exec build/bin/explorer check "$1" "${2:-${VERIF_TIER:-quick}}"
