#!/bin/bash
# Builds the harness once (warms the Go build cache) and parses the specification.
cd "$(dirname "$0")" || exit 1
export VERIF_DIR="$PWD"
. ./build.sh || exit 1
trap 'rm -rf "$work"' EXIT
vbuild C02 || exit 1
cd spec && for m in MC Trace Layout Merkle Pick History Conc IO Damage Scale Parse Names Pkcs7 Envelope Der Cert Text; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla >"$work/sany" 2>&1 || { cat "$work/sany"; exit 1; }
done
"$work/vh" smoke
