#!/bin/bash
# run.sh PROP TIER : one check
cd "$(dirname "$0")" || exit 3
. /opt/vp/env.sh >/dev/null 2>&1
export PYTHONDONTWRITEBYTECODE=1
unset PYTEST_CURRENT_TEST
exec python3 check.py "$1" --tier "${2:-quick}" "${@:3}"
