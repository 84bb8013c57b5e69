#!/bin/bash
# build the harness from the committed files, offline
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export VERIF_DIR="$PWD"
. ./env.sh
mkdir -p .build evidence
cargo build --offline --manifest-path harness/Cargo.toml || exit 3
exec cargo build --offline --release --manifest-path harness/Cargo.toml
