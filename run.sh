#!/bin/bash
# run.sh <property> [quick|thorough]: builds against /repo and decides one property.
here="$(cd "$(dirname "$0")" && pwd)"
"$here/build.sh" || exit 2
MC_HOME="$here" exec "${MC_TARGET:-$here/target}/release/mc" "$1" "${2:-${VERIF_TIER:-quick}}"
