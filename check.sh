#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
cd "$(dirname "$0")" || exit 2
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
case "$ID" in C05|C12|C14|C21|C22|C23|C24|C25|C28) MODE=all;; *) MODE=;; esac   # these run the weaver binary
./build.sh $MODE || { echo "build failed" >&2; exit 2; }
exec "${VH_TARGET:-/verif/harness/target}/debug/vh" "$ID" "$TIER"
