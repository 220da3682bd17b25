#!/bin/bash
# usage: run.sh Cxx [--replay FILE | --case N | --times]      runs one check against /repo's working tree
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg LANG=C.UTF-8
f="$(ls "$here"/mc/"$(echo "$id" | tr A-Z a-z)"_*.py | head -1)"
exec /opt/venv/bin/python -B "$f" "$@"
