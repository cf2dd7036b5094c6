#!/bin/bash
# usage: run.sh <property-id> [quick|thorough]   -- runs the check of one property
cd "$(dirname "$0")" || exit 2
[ -n "$2" ] && export VERIF_TIER=$2
export PYTHONPATH="${VERIF_REPO:-/repo}:$PWD/lib" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LANG=C.UTF-8 LC_ALL=C.UTF-8 TERM=dumb
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
f=$(ls checks/"$1"_*.py 2>/dev/null | head -1)
[ -n "$f" ] || { echo "no check for $1"; exit 2; }
exec $PY "$f"
