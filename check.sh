#!/bin/bash
# check.sh ID [quick|thorough] [case filter]  |  check.sh replay FILE
# Exit 0: held on everything explored. 1: VIOLATION line printed. 2: undecided or broken.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT=$PWD
bash tools/mkengine.sh || { echo "ERROR engine build"; exit 2; }
if [ "$1" = replay ]; then exec .build/engine/release/symex replay "$2"; fi
exec .build/engine/release/symex check "$1" "${2:-${VERIF_TIER:-quick}}" ${3:+"$3"}
