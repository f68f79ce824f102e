#!/bin/sh
# ./check.sh <property-id>   (VERIF_TIER=quick|thorough, VERIF_SEED)
cd "$(dirname "$0")" && exec python3 lib/runcheck.py "$@"
