#!/bin/bash
# Exit 0: the behaviour holds. Nonzero: it is broken.
. /opt/vp/env.sh >/dev/null 2>&1
export PYTHONDONTWRITEBYTECODE=1
exec timeout 240 python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"
