#!/bin/bash
# check.sh ID [quick|thorough]: build the harness against /repo's working tree and run one check
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export VERIF_DIR="$PWD"
. ./env.sh
tier="${2:-${VERIF_TIER:-quick}}"
# cargo goes by modification times; go by content
mkdir -p "$CARGO_TARGET_DIR"
h=$(cd /repo && cat Cargo.toml $(find src -type f | LC_ALL=C sort) | sha256sum)
if [ "$h" != "$(cat "$CARGO_TARGET_DIR/src.sha256" 2>/dev/null)" ]; then
  for p in debug release; do
    find "$CARGO_TARGET_DIR/$p/.fingerprint" -maxdepth 1 -name 'faerie-????????????????' -exec rm -rf {} + 2>/dev/null
  done
  echo "$h" >"$CARGO_TARGET_DIR/src.sha256"
fi
log="$VERIF_DIR/.build/build-$1.log"
mkdir -p "$VERIF_DIR/.build"
if ! { cargo build --offline --manifest-path harness/Cargo.toml &&
       cargo build --offline --release --manifest-path harness/Cargo.toml; } >"$log" 2>&1; then
  tail -40 "$log" >&2
  echo "error: the harness does not build" >&2
  exit 3
fi
export VERIF_RELEASE="$CARGO_TARGET_DIR/release/faerie-verif"
if [ "$tier" = thorough ]; then
  # a third build, with edge counters in faerie, for the coverage-guided stage
  g="$CARGO_TARGET_DIR/guided"
  mkdir -p "$g"
  if [ "$h" != "$(cat "$g/src.sha256" 2>/dev/null)" ]; then
    find "$g/debug/.fingerprint" -maxdepth 1 -name 'faerie-????????????????' -exec rm -rf {} + 2>/dev/null
    echo "$h" >"$g/src.sha256"
  fi
  if CARGO_TARGET_DIR="$g" RUSTC_WRAPPER="$VERIF_DIR/tools/wrap.sh" cargo build --offline --manifest-path harness/Cargo.toml >>"$log" 2>&1; then
    export VERIF_GUIDED="$g/debug/faerie-verif"
  else
    echo "note: no coverage-guided stage (it does not build; $log)" >&2
  fi
fi
exec "$CARGO_TARGET_DIR/debug/faerie-verif" check "$1" "$tier"
