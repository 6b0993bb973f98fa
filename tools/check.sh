#!/bin/bash
# usage: tools/check.sh <property id> [quick|thorough] [engine options]
# Builds the checker if it is missing or older than its sources, then decides the property.
here="$(cd "$(dirname "$0")/.." && pwd)"
id="$1"; tier="${2:-quick}"; shift 2 2>/dev/null || shift $#
bin="$here/bin/verif"
if [ ! -x "$bin" ] || [ -n "$(find "$here/engine" -newer "$bin" -name '*.go' -print -quit)" ]; then
  "$here/tools/build-engine.sh" || exit 3
fi
export VERIF_DIR="$here" VERIF_REPO="${VERIF_REPO:-/repo}"
cd "$here" && exec "$bin" check "$id" -tier "$tier" "$@"
