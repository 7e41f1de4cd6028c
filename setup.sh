#!/bin/bash
# Compile the chunker extension of the working tree once (every check rebuilds it when the source differs).
cd "$(dirname "$0")" || exit 3
. /opt/vp/env.sh >/dev/null 2>&1
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence build replays
exec python3 - <<'P'
import sys
sys.path.insert(0, ".")
from sim import boot
so, err = boot.build_chunker()
print(so or err)
sys.exit(0 if so else 1)
P
