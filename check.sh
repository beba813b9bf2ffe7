#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build the harness against /repo's working tree and run one check.
set -u
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD"
prop=$1 tier=${2:-${VERIF_TIER:-quick}}
. ./build.sh || exit 3
trap 'rm -rf "$work"' EXIT
vbuild "$prop" || exit 3
"$work/vh" check "$prop" "$tier"
