#!/bin/bash
# run.sh <property id> quick|thorough   or   run.sh replay <file>
cd "$(dirname "$0")" || exit 2
if [ "$1" = replay ]; then exec python3-vt -m vf replay "$2"; fi
[ -n "$2" ] && export VERIF_TIER="$2"
exec python3-vt -m vf "$1"
