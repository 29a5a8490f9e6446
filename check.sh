#!/bin/bash
# usage: check.sh <property> [quick|thorough]
ROOT="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$ROOT"
TIER="${2:-${VERIF_TIER:-quick}}"
SEED="${VERIF_SEED:-1}"
"$ROOT/build.sh" || { echo "ERROR the harness does not build against /repo"; exit 2; }
exec "${VERIF_TARGET:-$ROOT/target}/debug/vh" run "$1" "$TIER" "$SEED"
