#!/bin/bash
# check.sh <ID> [quick|thorough]   run one check;   check.sh replay <ID> <file>   replay one file
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
if [ "$1" = replay ]; then exec "$PY" -B run.py replay "$2" "$3"; fi
[ -n "$2" ] && export VERIF_TIER="$2"
exec "$PY" -B run.py check "$1"
