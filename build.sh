#!/bin/bash
# Builds the harness (and with "all" also the weaver binary) against /repo's current working tree (offline).
cd "$(dirname "$0")/harness" || exit 2
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN_VH:-1.96.1} CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
export CARGO_TARGET_DIR=${VH_TARGET:-/verif/harness/target}
LOG=/tmp/vh_build.$$.log
run() {
  "$@" 2>$LOG; local rc=$?
  if [ $rc -ne 0 ]; then grep -E "^error" -A12 $LOG | head -80 >&2; tail -5 $LOG >&2; fi
  rm -f "$LOG"
  [ $rc -eq 0 ] || exit $rc
}
run cargo build --offline --locked
if [ "$1" = all ]; then
  # the serve command embeds ui/dist (ignored by git); an empty folder is enough
  mkdir -p /repo/ui/dist
  export CARGO_PROFILE_DEV_DEBUG=false CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_INCREMENTAL=0
  run cargo build --offline --locked --manifest-path /repo/Cargo.toml --bin weaver
fi
