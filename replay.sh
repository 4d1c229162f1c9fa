#!/bin/bash
# replay.sh <replay file>: runs the recorded failing input against the real code again (exit 1 while it fails)
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec python3-vt -m pyvc.check --replay "$1"
