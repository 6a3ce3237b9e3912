#!/bin/bash
# bash check.sh <property id> [quick|thorough|replay FILE]
cd "$(dirname "$0")" || exit 2
CACHE=$(mktemp -d /tmp/mc-cache.XXXXXX)
trap 'rm -rf "$CACHE"' EXIT
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$CACHE"
export PYTHONPATH=
unset PYTHONSTARTUP
/opt/venv/bin/python -B -W ignore -m mc.run "$@"
