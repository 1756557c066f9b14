#!/bin/bash
# usage: check.sh CXX   (tier from VERIF_TIER or --tier=)
cd "$(dirname "$0")" || exit 2
exec python3 engine/run.py "$@"
