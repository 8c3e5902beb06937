#!/bin/bash
# usage: run.sh <property> quick|thorough      or      run.sh replay <file>
cd "$(dirname "$(readlink -f "$0")")"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MODEL_THREADS=${MODEL_THREADS:-1}
if [ "$1" = replay ]; then exec python3-vt -m harness "$(readlink -f "$2")"; fi
exec python3-vt -m harness "$1" --tier "${2:-quick}"
