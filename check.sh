#!/bin/bash
# check.sh C01 [k=v ...]     run the check of one property
# check.sh replay FILE       replay a recorded schedule-and-fault trace
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED="${DST_HASHSEED:-0}" PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8
export PYTHONPATH="$PWD:${VERIF_REPO:-/repo}"
PY=/opt/venv/bin/python
case "$1" in
  replay|digests|one|setup) exec "$PY" -m dst.cli "$@" ;;
  *) exec "$PY" -m dst.cli check "$@" ;;
esac
