#!/bin/bash
# check.sh <property> [quick|thorough]: decide one property on /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
[ -n "$2" ] && export VERIF_TIER="$2"
exec python3 "$here/checks/run.py" "$1"
