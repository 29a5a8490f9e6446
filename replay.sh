#!/bin/bash
# usage: replay.sh <replay file>   - run one recorded case against /repo
ROOT="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$ROOT"
"$ROOT/build.sh" || exit 2
exec "${VERIF_TARGET:-$ROOT/target}/debug/vh" one "$1"
